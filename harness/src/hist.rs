//! Sequential histories with storage faults, aborted calls, silent corruption and power cuts.
//!
//! One iteration = a random configuration (backend, retained-record count, keys) and a few
//! "lives". A life boots a list on some storage contents, performs random API calls while the
//! model below tracks what must be true, and ends in a power cut at an arbitrary journaled
//! mutation; all (or a sample of) the cut images are booted and judged, one of them is the start
//! of the next life.
//!
//! Only the oracles of the property under check are active; everything else the model needs is
//! taken from observation.
use crate::{
    driver::{Check, Ctx, Verdict, hash},
    exec::run_now,
    nor::{MkCache, NorBack},
    parse,
    rng::Rng,
    sim::{Boot, Val, many_keys, pick_keys, fresh_id, observe, stored_id},
    store::{Backend, ElemStore, Fault, Garble, Mon, OElem, Traffic},
};
use cfg_noodle::{
    NdlDataStorage,
    error::{Error, LoadStoreError},
};
use sequential_storage::cache::{KeyPointerCache, NoCache, PagePointerCache, PageStateCache};
use std::rc::Rc;

/// The joint contents of one record attempt: value id per key index.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Snap {
    pub n: u64,
    pub kv: Vec<Option<u64>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum V {
    /// waiting for a read
    Initial,
    /// a read failed part-way: hydrated or still waiting
    Unknown,
    /// known to have no stored value; default not installed yet
    NonRes,
    Valid { id: u64, dirty: bool },
}

#[derive(Clone, Copy, Debug)]
struct K0 {
    inlist: bool,
    val: V,
    /// value too large to be stored
    big: bool,
    /// what the newest intact record held for the key when the first process_reads that
    /// succeeded after the node was attached ran
    entitled: Option<Option<u64>>,
    /// the same for the reads that failed, each of which may have hydrated the node all the same
    partial: Partial,
}

/// The stored values that reads which failed came across (up to eight different ones).
#[derive(Clone, Copy, Debug, Default)]
struct Partial([Option<u64>; 8]);
impl Partial {
    fn add(&mut self, v: u64) {
        if !self.0.contains(&Some(v))
            && let Some(f) = self.0.iter_mut().find(|x| x.is_none())
        {
            *f = Some(v);
        }
    }
    fn may_be(&self, v: u64) -> bool {
        self.0.contains(&Some(v)) || self.0.iter().all(|x| x.is_some())
    }
}

pub enum Outc<T, E> {
    Ok(T),
    Err(LoadStoreError<E>),
    Cancelled,
}
impl<T, E> Outc<T, E> {
    fn ok(&self) -> bool {
        matches!(self, Outc::Ok(_))
    }
}

struct Opts {
    op_faults: bool,
    low_faults: bool,
    garble: bool,
    big: bool,
    sweep: usize,
    recover: bool,
    lives: usize,
    steps: usize,
    prior: bool,
    reset: bool,
    /// hundreds of elements, tens of nodes
    scale: bool,
}

pub struct H<'c, const K: usize, S: Backend> {
    c: &'c mut Ctx,
    sto: Mon<S>,
    boot: Boot<K>,
    keys: Vec<&'static str>,
    buf: Vec<u8>,
    st: Vec<K0>,
    cands: Vec<Rc<Snap>>,
    timeline: Vec<(usize, Vec<Rc<Snap>>)>,
    attempt: u64,
    /// a process_reads succeeded since boot / reset
    read_ok: bool,
    /// a process_reads was at least tried since boot / reset
    read_tried: bool,
    /// a pushing write succeeded and no collection succeeded since
    gc_due: bool,
    abandon: bool,
    o: Opts,
    max_pad: usize,
}

type LsErr<S> = crate::store::MonErr<<S as NdlDataStorage>::Error>;

impl<'c, const K: usize, S: Backend> H<'c, K, S> {
    fn viol(&mut self, props: &[&str], msg: impl FnOnce() -> String) -> Verdict {
        self.c.cov.evals += 1;
        if props.contains(&self.c.prop) {
            let m = msg();
            self.c.log(|| format!("VIOLATION {m}"));
            return Err(m);
        }
        Ok(())
    }
    fn elems(&self) -> Vec<OElem> {
        self.sto.inner.elems()
    }
    fn jl(&self) -> usize {
        self.sto.inner.journal_len()
    }
    fn pad(&mut self) -> u16 {
        let m = self.max_pad;
        let r = &mut self.c.rng;
        match r.below(6) {
            0 => 0,
            1 => r.range(0, m.min(26)) as u16,
            2 => m as u16,
            _ => r.range(0, m.min(12)) as u16,
        }
    }

    // ---------------------------------------------------------------- fault placement

    fn arm(&mut self, allow_garble: bool) -> bool {
        let p = self.o.op_faults || self.o.low_faults || (allow_garble && self.o.garble);
        let mut c = self.sto.ctl.borrow_mut();
        c.faults.clear();
        c.push_faults.clear();
        if !p || !self.c.rng.chance(2, 5) {
            return false;
        }
        let n = c.shadow.len().max(3) as usize;
        let r = &mut self.c.rng;
        if self.o.low_faults && r.chance(1, 3) {
            drop(c);
            let h = 4 + n * 6;
            let hor = if r.chance(1, 2) { h } else { h * 4 };
            self.sto.inner.low_inject(&mut self.c.rng, hor);
            return true;
        }
        if allow_garble && self.o.garble && r.chance(1, 2) {
            let g = *r.pick(&[
                Garble::Drop,
                Garble::Flip(7),
                Garble::Flip(12345),
                Garble::Truncate,
                Garble::Extend,
                Garble::Duplicate,
                Garble::OtherSeq,
                Garble::ToData,
                Garble::Stray,
            ]);
            let g = if let Garble::Flip(_) = g { Garble::Flip(r.u64() as u32) } else { g };
            let at = c.pushno + r.below(self.keys.len() + 2) as u64;
            c.push_faults.insert(at, Fault::Garble(g));
            return true;
        }
        if !self.o.op_faults {
            return false;
        }
        let kind = *r.pick(&[
            Fault::ErrBefore,
            Fault::ErrAfter,
            Fault::HangBefore,
            Fault::HangAfter,
        ]);
        if allow_garble && r.chance(1, 2) {
            // hit one of the pushes
            let at = c.pushno + r.below(self.keys.len() + 2) as u64;
            c.push_faults.insert(at, kind);
        } else {
            let hor = *r.pick(&[3usize, n + 2, 2 * n + 6, 3 * n + 8]);
            let at = c.opno + r.below(hor) as u64;
            c.faults.insert(at, kind);
        }
        true
    }
    fn disarm(&mut self) {
        let mut c = self.sto.ctl.borrow_mut();
        c.faults.clear();
        c.push_faults.clear();
        drop(c);
        self.sto.inner.low_clear();
    }
    fn traffic(&self) -> (Traffic, u64, u64) {
        let c = self.sto.ctl.borrow();
        (c.traffic, c.pushno, c.inval_in_gc)
    }
    fn reset_traffic(&mut self) {
        let mut c = self.sto.ctl.borrow_mut();
        c.traffic = Traffic::default();
        c.pushno = 0;
        c.inval_in_gc = 0;
        c.offered.clear();
    }

    /// No storage modification may have begun.
    fn quiet(&mut self, what: &str) -> Verdict {
        let (_, p, i) = self.traffic();
        if p != 0 || i != 0 {
            return self.viol(&["P20"], || {
                format!("{what} modified storage: {p} appends, {i} invalidations begun")
            });
        }
        self.c.cov.evals += 1;
        Ok(())
    }

    // ---------------------------------------------------------------- candidate handling

    fn unanimous(&self, k: usize) -> Option<Option<u64>> {
        let f = self.cands.first()?.kv[k];
        self.cands.iter().all(|s| s.kv[k] == f).then_some(f)
    }
    fn note(&mut self) {
        let j = self.jl();
        self.timeline.push((j, self.cands.clone()));
    }
    /// A fresh hydration of key `k` produced `obs`.
    fn observed(&mut self, k: usize, obs: Option<u64>, how: &str) -> Verdict {
        self.c.cov.evals += 1;
        let keep: Vec<_> = self.cands.iter().filter(|s| s.kv[k] == obs).cloned().collect();
        if keep.is_empty() {
            let cands = self.cands.clone();
            let key = self.keys[k];
            self.viol(&["P01", "P02"], || {
                format!(
                    "{how}: key {key:?} hydrated {obs:?}, but the durable value can only be one of {:?}",
                    cands.iter().map(|s| s.kv[k]).collect::<Vec<_>>()
                )
            })?;
            // adopt reality
            self.adopt();
            return Ok(());
        }
        self.cands = keep;
        Ok(())
    }
    /// Take the candidate set from what is really stored (used only when another property's
    /// expectation failed).
    fn adopt(&mut self) {
        let s = self.stored_snap();
        self.cands = vec![Rc::new(s)];
        self.note();
        self.c.cov.count("adopted");
    }
    fn stored_snap(&self) -> Snap {
        let e = self.elems();
        let mut kv = vec![None; self.keys.len()];
        if let Some(r) = parse::newest(&e) {
            for (k, v) in r.kv.iter() {
                if let Some(i) = self.keys.iter().position(|x| x == k)
                    && kv[i].is_none()
                {
                    kv[i] = stored_id(v);
                }
            }
        }
        Snap { n: u64::MAX, kv }
    }

    // ---------------------------------------------------------------- API steps

    fn attach(&mut self, i: usize) -> Verdict {
        self.reset_traffic();
        let pad = self.pad().min(16);
        let was = self.st[i];
        let r = self.boot.begin_attach(i, pad);
        self.c.log(|| format!("attach {i} -> {r:?}"));
        self.quiet("attach")?;
        if !was.inlist {
            self.st[i] = K0 { inlist: true, val: V::Initial, big: false, entitled: None, partial: Partial::default() };
            if r.is_some() {
                if r == Some(Ok(())) {
                    self.viol(&["P13"], || format!("attach of fresh node {i} ended before any read"))?;
                } else {
                    self.viol(&["P10"], || format!("attach of fresh node {i} failed: {r:?}"))?;
                }
                self.abandon = true;
            }
            return Ok(());
        }
        match r {
            Some(Ok(())) => self.attached(i)?,
            None => self.must_end(i, true)?,
            Some(Err(e)) => {
                self.viol(&["P10"], || format!("attach of node {i} without a live handle failed: {e:?}"))?;
                self.abandon = true
            }
        }
        Ok(())
    }
    /// The attach of `i` is still waiting.
    fn must_end(&mut self, i: usize, fresh: bool) -> Verdict {
        if self.st[i].entitled.is_some() || matches!(self.st[i].val, V::Valid { .. } | V::NonRes) {
            self.viol(&["P13"], || {
                format!("attach of node {i} still waits although a process_reads has succeeded since it registered")
            })?;
        }
        if fresh && self.st[i].val == V::Unknown {
            // a new attach waits, too, and nothing else is going on: the node is not hydrated
            self.st[i].val = V::Initial;
            self.c.cov.count("waiting_after_failed_read");
        }
        Ok(())
    }
    /// A handle has just become available.
    fn attached(&mut self, i: usize) -> Verdict {
        let id = self.boot.load(i).unwrap();
        let is_def = id == self.boot.slots[i].def_id;
        let v = self.st[i].val;
        if !matches!(v, V::Valid { .. }) {
            let (ent, part) = (self.st[i].entitled, self.st[i].partial);
            self.c.cov.count("hydrations_judged");
            let good = match ent {
                None => !is_def && part.may_be(id),
                Some(None) => is_def || part.may_be(id),
                Some(Some(x)) => id == x || part.may_be(id),
            };
            if !good {
                let key = self.keys[i];
                self.viol(&["P13", "P03", "P17"], || {
                    format!(
                        "attach of key {key:?} yields {} {id}; since it registered, the newest intact record held {ent:?} at the first successful process_reads, {:?} at failed ones",
                        if is_def { "the default" } else { "value" },
                        part.0.iter().flatten().collect::<Vec<_>>()
                    )
                })?;
            }
        }
        match v {
            V::Valid { id: want, .. } => {
                if id != want {
                    self.viol(&["P09"], || format!("re-attach of key {i} loads {id}, expected {want}"))?;
                    self.st[i].val = V::Valid { id, dirty: is_def };
                }
            }
            V::NonRes => {
                if !is_def {
                    self.observed(i, Some(id), "attach")?;
                }
                self.st[i].val = V::Valid { id, dirty: is_def };
            }
            V::Initial | V::Unknown => {
                self.observed(i, (!is_def).then_some(id), "attach")?;
                self.st[i].val = V::Valid { id, dirty: is_def };
            }
        }
        Ok(())
    }
    fn poll(&mut self, i: usize) -> Verdict {
        self.reset_traffic();
        let r = self.boot.poll_attach(i);
        self.c.log(|| format!("poll {i} -> {r:?}"));
        self.quiet("attach")?;
        match r {
            Some(Ok(())) => self.attached(i)?,
            Some(Err(e)) => {
                self.viol(&["P10"], || format!("waiting attach of node {i} failed: {e:?}"))?;
                self.abandon = true
            }
            None => self.must_end(i, false)?,
        }
        Ok(())
    }
    fn resolve(&mut self, i: usize) -> Verdict {
        if self.boot.slots[i].pending.is_some() && self.st[i].val == V::Unknown && self.c.rng.chance(1, 2) {
            self.boot.slots[i].pending = None;
        }
        if self.boot.slots[i].pending.is_some() {
            self.poll(i)
        } else if self.boot.slots[i].h.is_none() && self.st[i].inlist {
            self.attach(i)
        } else {
            Ok(())
        }
    }

    fn write_val(&mut self, i: usize) -> Verdict {
        if self.boot.slots[i].h.is_none() {
            return Ok(());
        }
        self.reset_traffic();
        let mut pad = self.pad();
        let mut big = false;
        if self.o.big && self.c.rng.chance(1, 8) {
            pad = (S::MAX_ELEM_SIZE + self.c.rng.below(20)).min(60_000) as u16;
            big = true;
        }
        let id = fresh_id();
        let r = self.boot.write(i, id, pad);
        self.c.log(|| format!("write {i} := {id} pad {pad} -> {r:?}"));
        self.quiet("handle write")?;
        match r {
            Some(Ok(())) => {
                self.st[i].val = V::Valid { id, dirty: true };
                self.st[i].big = big;
            }
            r => {
                self.viol(&["P09"], || format!("write through handle {i} failed: {r:?}"))?;
                self.abandon = true
            }
        }
        if self.c.rng.chance(1, 4) {
            let l = self.boot.load(i);
            self.quiet("load")?;
            if l != Some(id) {
                self.viol(&["P09"], || format!("load after write of {id} returns {l:?}"))?;
            }
        }
        Ok(())
    }
    fn detach(&mut self, i: usize) -> Verdict {
        self.reset_traffic();
        self.boot.slots[i].pending = None;
        self.boot.slots[i].h = None;
        let r = self.boot.detach(i);
        self.c.log(|| format!("detach {i} -> {r:?}"));
        self.quiet("detach")?;
        if r != Some(Ok(())) {
            self.viol(&["P10"], || format!("detach of node {i} without a live handle failed: {r:?}"))?;
            self.abandon = true;
        }
        self.st[i] = K0 { inlist: false, val: V::Initial, big: false, entitled: None, partial: Partial::default() };
        Ok(())
    }

    fn reads(&mut self, faults: bool) -> Result<Outc<(), LsErr<S>>, String> {
        self.reset_traffic();
        self.read_tried = true;
        let armed = faults && self.arm(false);
        let before = (self.c.is("P20") || self.c.is("P21")).then(|| self.elems());
        let stored = self.stored_snap();
        let r = run_now(self.boot.list.process_reads(&mut self.sto, &mut self.buf));
        self.disarm();
        let out = match r {
            None => Outc::Cancelled,
            Some(Ok(rep)) => {
                let t = self.traffic().0;
                if rep.total_bytes_read != t.read_bytes {
                    self.viol(&["P21"], || {
                        format!(
                            "process_reads reports {} bytes read, storage handed out {}",
                            rep.total_bytes_read, t.read_bytes
                        )
                    })?;
                }
                if let Some(b) = &before
                    && self.c.is("P21")
                {
                    let want: usize = match parse::newest(b) {
                        None => 0,
                        Some(rec) => b[rec.first + 1..rec.last].iter().map(|e| S::stored_len(e)).sum(),
                    };
                    self.c.cov.count("reads_reports_checked");
                    if rep.current_bytes_read != want {
                        self.viol(&["P21"], || {
                            format!(
                                "process_reads reports {} current bytes, the hydration record holds {want}",
                                rep.current_bytes_read
                            )
                        })?;
                    }
                }
                Outc::Ok(())
            }
            Some(Err(e)) => Outc::Err(e),
        };
        self.log_out("process_reads", &out, armed);
        self.quiet("process_reads")?;
        if let Some(b) = before {
            let a = self.elems();
            if a != b {
                self.viol(&["P20"], || format!("process_reads changed storage: {b:?} -> {a:?}"))?;
            }
        }
        for i in 0..self.keys.len() {
            let k = &mut self.st[i];
            if k.inlist && k.entitled.is_none() && !matches!(k.val, V::Valid { .. }) {
                if out.ok() {
                    k.entitled = Some(stored.kv[i]);
                } else if let Some(v) = stored.kv[i] {
                    k.partial.add(v);
                }
            }
        }
        if out.ok() && !self.read_ok && matches!(S::name(), "backend_abstract") {
            // what the first read found is not what a collection leaves
            let e = self.elems();
            if e != parse::kept_elems(&e, K) {
                self.gc_due = true;
                self.c.cov.count("collections_due_after_boot");
            }
        }
        if out.ok() {
            self.read_ok = true;
            for i in 0..self.keys.len() {
                if self.st[i].inlist && matches!(self.st[i].val, V::Initial | V::Unknown) {
                    match self.unanimous(i) {
                        Some(None) if self.c.rng.chance(1, 3) => self.st[i].val = V::NonRes,
                        _ => self.resolve(i)?,
                    }
                }
            }
        } else {
            for i in 0..self.keys.len() {
                if self.st[i].inlist && self.st[i].val == V::Initial {
                    self.st[i].val = V::Unknown;
                }
            }
        }
        Ok(out)
    }

    fn log_out<T>(&mut self, what: &'static str, o: &Outc<T, LsErr<S>>, armed: bool) {
        let s = match o {
            Outc::Ok(_) => "ok".to_string(),
            Outc::Err(e) => format!("err {e:?}"),
            Outc::Cancelled => "dropped while in flight".into(),
        };
        self.c.cov.count(match (what, o) {
            ("process_reads", Outc::Ok(_)) => "reads_ok",
            ("process_reads", Outc::Err(_)) => "reads_err",
            ("process_reads", _) => "reads_dropped",
            ("process_writes", Outc::Ok(_)) => "writes_ok",
            ("process_writes", Outc::Err(_)) => "writes_err",
            ("process_writes", _) => "writes_dropped",
            (_, Outc::Ok(_)) => "gc_ok",
            (_, Outc::Err(_)) => "gc_err",
            (_, _) => "gc_dropped",
        });
        let e = if self.c.verbose { format!(" {:?}", self.elems()) } else { String::new() };
        self.c.log(|| format!("{what}{} -> {s}{e}", if armed { " (fault armed)" } else { "" }));
        if self.c.cov.evals % 4 == 0 {
            let h = hash(&(self.elems(), s, what));
            self.c.cov.seen(h);
        }
    }

    /// The vector of values a write starting now captures. A node of which we cannot know whether
    /// a failed read hydrated it counts with what the list offered to storage for it.
    fn snapshot(&mut self) -> Snap {
        self.attempt += 1;
        let offered: Vec<(String, u64)> = self
            .sto
            .ctl
            .borrow()
            .offered
            .iter()
            .filter_map(|kv| parse::split_kv(kv))
            .map(|(k, v)| (k, stored_id(&v).unwrap_or(0)))
            .collect();
        let keys = &self.keys;
        let kv = self
            .st
            .iter()
            .enumerate()
            .map(|(i, k)| match (k.inlist, k.val) {
                (true, V::Valid { id, .. }) => Some(id),
                (true, V::Unknown) => offered.iter().find(|x| x.0 == keys[i]).map(|x| x.1),
                _ => None,
            })
            .collect();
        Snap { n: self.attempt, kv }
    }
    fn dirty(&self) -> bool {
        self.st
            .iter()
            .any(|k| k.inlist && matches!(k.val, V::Valid { dirty: true, .. }))
    }
    /// a node is certainly waiting for hydration
    fn initial(&self) -> bool {
        self.st.iter().any(|k| k.inlist && k.val == V::Initial)
    }
    fn maybe_initial(&self) -> bool {
        self.st.iter().any(|k| k.inlist && matches!(k.val, V::Initial | V::Unknown))
    }

    fn writes(&mut self, faults: bool) -> Result<Outc<(), LsErr<S>>, String> {
        // find out about nodes in an uncertain state
        for i in 0..self.keys.len() {
            if self.st[i].inlist && self.st[i].val == V::Unknown {
                self.resolve(i)?;
            }
        }
        let dirty = self.dirty();
        let need_before = self.c.is("P19") || self.c.is("P08") || self.c.is("P20") || self.c.is("P07");
        let before = if need_before { self.elems() } else { vec![] };
        self.reset_traffic();
        let armed = faults && self.arm(true);
        let start = self.jl();
        let r = run_now(self.boot.list.process_writes(&mut self.sto, &mut self.buf));
        self.disarm();
        let (t, pushes, invals) = self.traffic();
        let snap = Rc::new(self.snapshot());
        for i in 0..self.keys.len() {
            if self.st[i].inlist && self.st[i].val == V::Unknown && snap.kv[i].is_some() {
                self.observed(i, snap.kv[i], "value written for a node")?;
            }
        }
        let out = match r {
            None => Outc::Cancelled,
            Some(Ok(rep)) => {
                if rep.total_bytes_read != t.read_bytes || rep.current_bytes_written != t.pushed_bytes {
                    self.viol(&["P21"], || {
                        format!(
                            "process_writes reports {} read / {} written, storage saw {} / {}",
                            rep.total_bytes_read,
                            rep.current_bytes_written,
                            t.read_bytes,
                            t.pushed_bytes
                        )
                    })?;
                }
                self.c.cov.count("writes_reports_checked");
                if pushes == 0 && rep.current_bytes_written != 0 {
                    self.viol(&["P08"], || "a write without any append reports bytes written".into())?;
                }
                Outc::Ok(())
            }
            Some(Err(e)) => Outc::Err(e),
        };
        if invals != 0 {
            self.viol(&["P04", "P20"], || "process_writes invalidated elements".into())?;
        }
        if pushes > 0 {
            // the attempt exists from its first append on
            self.timeline.push((start, {
                let mut v = self.cands.clone();
                v.push(snap.clone());
                v
            }));
            self.cands.push(snap.clone());
        }
        self.log_out("process_writes", &out, armed);
        // preconditions
        let initial = self.initial();
        if !self.read_tried || initial || self.gc_due {
            self.c.cov.count("writes_with_precondition_missing");
            if pushes > 0 {
                let (ro, gd) = (self.read_tried, self.gc_due);
                self.viol(&["P20"], || {
                    format!("process_writes modified storage although read_tried={ro} waiting_nodes={initial} gc_due={gd}")
                })?;
            }
            if out.ok() && (!self.read_tried || initial) {
                self.viol(&["P20"], || {
                    "process_writes reported success before the first completed read".into()
                })?;
            }
            if out.ok() && self.gc_due && dirty {
                self.viol(&["P20"], || {
                    "process_writes reported success while a collection is due".into()
                })?;
            }
        }
        if let Outc::Err(LoadStoreError::AppError(
            Error::NeedsFirstRead | Error::NeedsGarbageCollect,
        )) = &out
            && self.c.is("P20")
        {
            if pushes > 0 {
                self.viol(&["P20"], || {
                    "process_writes failed with a precondition error after modifying storage".into()
                })?;
            }
            let e = self.elems();
            if e != before {
                self.viol(&["P20"], || "a refused process_writes changed storage".into())?;
            }
        }
        match &out {
            Outc::Ok(()) => {
                self.c.cov.evals += 1;
                if pushes == 0 {
                    self.c.cov.count("writes_noop");
                    if dirty {
                        self.viol(&["P08", "P07"], || {
                            "process_writes reported success without storing a pending value".into()
                        })?;
                    }
                } else {
                    self.c.cov.count("writes_stored");
                    self.gc_due = true;
                    if self.c.is("P08") && !dirty && parse::newest(&before).is_some() {
                        self.viol(&["P08"], || {
                            "process_writes stored a record although nothing was pending and data was present".into()
                        })?;
                    }
                }
                if self.c.is("P07") || self.c.is("P08") || self.c.is("P19") || self.c.is("P06") {
                    self.check_stored(&before, &snap, pushes > 0)?;
                }
                // acknowledged
                if pushes > 0 {
                    self.cands = vec![snap.clone()];
                    for k in self.st.iter_mut() {
                        if let V::Valid { id, .. } = k.val {
                            k.val = V::Valid { id, dirty: false };
                        }
                    }
                } else {
                    let st = self.st.clone();
                    let keep: Vec<_> = self
                        .cands
                        .iter()
                        .filter(|s| {
                            st.iter().enumerate().all(|(i, k)| match (k.inlist, k.val) {
                                (true, V::Valid { id, .. }) => s.kv[i] == Some(id),
                                _ => true,
                            })
                        })
                        .cloned()
                        .collect();
                    if keep.is_empty() {
                        if !dirty {
                            let c = self.cands.clone();
                            self.viol(&["P01", "P08"], || {
                                format!(
                                    "process_writes acknowledged {:?} without storing it; durable can only be {:?}",
                                    snap.kv, c
                                )
                            })?;
                        }
                        // the acknowledgement stands as the caller sees it
                        self.cands = vec![snap.clone()];
                    } else {
                        self.cands = keep;
                    }
                }
                self.note();
            }
            Outc::Err(e) => {
                if self.c.is("P07") && matches!(e, LoadStoreError::WriteVerificationFailed) {
                    self.c.cov.count("verification_failures");
                }
                self.note();
            }
            Outc::Cancelled => self.note(),
        }
        Ok(out)
    }

    /// After a reported success: an intact newest record holds exactly the current values.
    fn check_stored(&mut self, before: &[OElem], snap: &Snap, pushed: bool) -> Verdict {
        let e = self.elems();
        let Some(rec) = parse::newest(&e) else {
            return self.viol(&["P07", "P08", "P06"], || {
                "process_writes reported success but storage holds no intact record".into()
            });
        };
        if self.c.is("P19") && pushed {
            let prev = parse::newest(before).map(|r| r.seq).unwrap_or(0);
            self.c.cov.count("sequence_numbers_checked");
            if rec.seq <= prev {
                return self.viol(&["P19"], || {
                    format!("record written with sequence number <= {prev}: newest after the write is {}", rec.seq)
                });
            }
        }
        let mut want: Vec<(String, u64)> = self
            .keys
            .iter()
            .enumerate()
            .filter_map(|(i, k)| snap.kv[i].map(|v| (k.to_string(), v)))
            .collect();
        let mut got: Vec<(String, u64)> = rec
            .kv
            .iter()
            .map(|(k, v)| (k.clone(), stored_id(v).unwrap_or(0)))
            .collect();
        want.sort();
        got.sort();
        self.c.cov.count("acknowledged_records_compared");
        if pushed {
            if want != got || rec.undecodable > 0 {
                return self.viol(&["P07", "P08", "P06"], || {
                    format!("process_writes reported success; wanted {want:?}, newest intact record holds {got:?}")
                });
            }
        } else {
            for w in &want {
                if !got.contains(w) {
                    return self.viol(&["P07", "P08", "P06"], || {
                        format!("process_writes acknowledged {w:?} without a write; newest record holds {got:?}")
                    });
                }
            }
        }
        Ok(())
    }

    fn gc(&mut self, faults: bool) -> Result<Outc<(), LsErr<S>>, String> {
        let watch = self.c.is("P04") || self.c.is("P05") || self.c.is("P06") || self.c.is("P20");
        let before = if watch { self.elems() } else { vec![] };
        self.reset_traffic();
        if self.c.is("P04") {
            self.sto.resync(&before);
            let top = parse::top_k(&before, K);
            let mut c = self.sto.ctl.borrow_mut();
            let prot: Vec<u64> = c
                .shadow
                .iter()
                .enumerate()
                .filter(|(i, _)| top.iter().any(|r| *i >= r.first && *i <= r.last))
                .map(|(_, x)| x.0)
                .collect();
            c.protected = Some(prot);
            c.protected_hits.clear();
        }
        let armed = faults && self.arm(false);
        let r = run_now(self.boot.list.process_garbage(&mut self.sto, &mut self.buf));
        self.disarm();
        let (t, pushes, invals) = self.traffic();
        let out = match r {
            None => Outc::Cancelled,
            Some(Ok(rep)) => {
                self.c.cov.count("gc_reports_checked");
                if rep.total_bytes_read != t.read_bytes || rep.total_bytes_popped != t.popped_bytes {
                    self.viol(&["P21"], || {
                        format!(
                            "process_garbage reports {} read / {} popped, storage saw {} / {}",
                            rep.total_bytes_read, rep.total_bytes_popped, t.read_bytes, t.popped_bytes
                        )
                    })?;
                }
                if self.c.is("P21") {
                    // reads that follow the last invalidation
                    let after: usize = if t.iters == 0 {
                        0
                    } else {
                        self.elems().iter().map(|e| S::stored_len(e)).sum()
                    };
                    if rep.post_collection_bytes_read != after {
                        self.viol(&["P21"], || {
                            format!(
                                "process_garbage reports {} bytes read after collection, the contents are {after}",
                                rep.post_collection_bytes_read
                            )
                        })?;
                    }
                }
                Outc::Ok(())
            }
            Some(Err(e)) => Outc::Err(e),
        };
        self.log_out("process_garbage", &out, armed);
        if pushes > 0 {
            self.viol(&["P04", "P20"], || "process_garbage appended elements".into())?;
        }
        if self.c.is("P04") {
            let hits = {
                let mut c = self.sto.ctl.borrow_mut();
                c.protected = None;
                std::mem::take(&mut c.protected_hits)
            };
            self.c.cov.add("invalidations_judged", invals);
            if !hits.is_empty() {
                return self
                    .viol(&["P04"], || format!("process_garbage (K={K}) invalidated {hits:?}; contents {before:?}"))
                    .map(|_| out);
            }
            let after = self.elems();
            let strip = |v: &[OElem]| {
                parse::top_k(v, K).into_iter().map(|r| (r.seq, r.kv)).collect::<Vec<_>>()
            };
            if strip(&before) != strip(&after) {
                return self
                    .viol(&["P04"], || {
                        format!("the {K} newest intact records changed in a collection: {before:?} -> {after:?}")
                    })
                    .map(|_| out);
            }
            self.c.cov.evals += 1;
        }
        if out.ok() {
            self.gc_due = false;
        } else if self.gc_due {
            // everything may have been removed already
            let e = self.elems();
            self.gc_due = e != parse::kept_elems(&e, K);
        }
        if out.ok() && self.read_ok {
            if self.c.is("P05") || self.c.is("P06") {
                let after = self.elems();
                let want = parse::kept_elems(&before, K);
                self.c.cov.count("collections_compared");
                if invals > 0 {
                    self.c.cov.count("collections_that_removed");
                }
                if after != want {
                    self.viol(&["P05"], || {
                        format!("after a collection (K={K}) storage holds {after:?}, expected {want:?} (before {before:?})")
                    })?;
                }
                self.c.cov.evals += 1;
            }
            if self.c.is("P20") && self.c.rng.chance(1, 3) {
                // nothing is due now
                self.reset_traffic();
                let b = self.elems();
                let r = run_now(self.boot.list.process_garbage(&mut self.sto, &mut self.buf));
                self.quiet("process_garbage with nothing due")?;
                let a = self.elems();
                self.c.cov.count("gc_with_nothing_due");
                if a != b || !matches!(r, Some(Ok(_))) {
                    self.viol(&["P20"], || {
                        "process_garbage with nothing due changed storage or failed".into()
                    })?;
                }
            }
        } else if out.ok() && !self.read_ok && invals > 0 && self.c.is("P20") {
            // a collection before any read has no knowledge of what to keep: still judged by P04
        }
        Ok(out)
    }

    fn reset(&mut self) -> Verdict {
        if self.o.sweep == 0
            && matches!(self.c.prop, "P04" | "P05" | "P13" | "P19" | "P20" | "P21" | "P16")
            && S::name() == "backend_abstract"
            && self.c.rng.chance(1, 2)
        {
            // somebody else has changed the contents, which is what reset_cache is for
            let keys = self.keys.clone();
            let mut e = if self.c.rng.chance(1, 2) { self.elems() } else { vec![] };
            let used: Vec<u32> = parse::records(&e).iter().map(|r| r.seq).collect();
            let more = prior_content(&mut self.c.rng, &keys, K);
            if !parse::records(&more).iter().any(|r| used.contains(&r.seq)) {
                e.extend(more);
            }
            self.c.log(|| format!("contents replaced: {e:?}"));
            self.c.cov.count("contents_replaced");
            self.sto.inner.preload(&e);
            self.sto.resync(&e);
            self.adopt();
        }
        self.reset_traffic();
        let r = run_now(self.boot.list.reset_cache());
        self.c.log(|| format!("reset_cache -> {r:?}"));
        self.quiet("reset_cache")?;
        self.read_ok = false;
        self.read_tried = false;
        self.gc_due = false;
        Ok(())
    }

    /// The property-6 recovery sequence on the running list, storage healthy.
    fn recover(&mut self, why: &str) -> Verdict {
        self.c.log(|| format!("recovery sequence ({why})"));
        for i in 0..self.keys.len() {
            if self.st[i].inlist && self.st[i].val == V::Unknown {
                self.resolve(i)?;
            }
            if self.st[i].big {
                // an unstorable value keeps failing by contract
                if self.boot.slots[i].h.is_none() {
                    self.resolve(i)?;
                }
                self.st[i].big = false;
                let id = fresh_id();
                if let Some(Ok(())) = self.boot.write(i, id, 1) {
                    self.st[i].val = V::Valid { id, dirty: true };
                } else {
                    self.abandon = true;
                }
            }
        }
        if self.abandon {
            return Ok(());
        }
        if !self.read_ok || self.maybe_initial() {
            let r = self.reads(false)?;
            if !r.ok() {
                let e = self.fmt_out(&r);
                self.viol(&["P06"], || format!("{why}: process_reads on healthy storage: {e}"))?;
                self.abandon = true;
                return Ok(());
            }
        }
        let r = self.gc(false)?;
        if !r.ok() {
            let e = self.fmt_out(&r);
            self.viol(&["P06"], || format!("{why}: process_garbage on healthy storage: {e}"))?;
            self.abandon = true;
            return Ok(());
        }
        let now = self.elems();
        self.sto.resync(&now);
        let mut r = self.writes(false)?;
        for _ in 0..200 {
            if r.ok() || !self.sto.medium_lost_data() {
                break;
            }
            // a storage fault of its own
            self.c.cov.count("torn_header_collisions");
            let _ = self.gc(false)?;
            let now = self.elems();
            self.sto.resync(&now);
            r = self.writes(false)?;
        }
        if !r.ok() {
            let e = self.fmt_out(&r);
            let el = self.elems();
            self.viol(&["P06", "P07"], || {
                format!("{why}: process_garbage then process_writes on healthy storage: {e}; contents {el:?}")
            })?;
            self.abandon = true;
        } else {
            self.c.cov.count("recoveries_ok");
        }
        Ok(())
    }
    fn fmt_out<T>(&self, o: &Outc<T, LsErr<S>>) -> String {
        match o {
            Outc::Ok(_) => "ok".into(),
            Outc::Err(e) => format!("failed with {e:?}"),
            Outc::Cancelled => "never completed".into(),
        }
    }

    // ---------------------------------------------------------------- a life

    fn step(&mut self) -> Verdict {
        let n = self.keys.len();
        let i = self.c.rng.below(n);
        match self.c.rng.below(24) {
            0..=1 => {
                if !self.st[i].inlist || (self.boot.slots[i].h.is_none() && self.boot.slots[i].pending.is_none()) {
                    self.attach(i)?;
                }
            }
            2 => {
                if self.boot.slots[i].pending.is_some() {
                    self.poll(i)?;
                }
            }
            3 => {
                // drop a handle or an attach future
                if self.boot.slots[i].pending.is_some() && self.c.rng.chance(1, 2) {
                    self.boot.slots[i].pending = None;
                    self.c.log(|| format!("drop attach future {i}"));
                } else if self.boot.slots[i].h.is_some() {
                    self.boot.slots[i].h = None;
                    self.c.log(|| format!("drop handle {i}"));
                }
            }
            4 => {
                if self.st[i].inlist && self.c.rng.chance(1, 2) {
                    self.detach(i)?;
                }
            }
            5..=11 => self.write_val(i)?,
            12..=13 => {
                self.reads(true)?;
            }
            14..=18 => {
                self.writes(true)?;
            }
            19..=22 => {
                self.gc(true)?;
            }
            _ => {
                if self.o.reset && self.c.rng.chance(1, 3) {
                    self.reset()?;
                } else if self.o.recover || self.c.rng.chance(1, 2) {
                    self.recover("mid-life")?;
                }
            }
        }
        Ok(())
    }

    /// Every handle still yields its own value.
    fn loads(&mut self) -> Verdict {
        if !self.c.is("P09") && !self.c.is("P08") {
            return Ok(());
        }
        for i in 0..self.keys.len() {
            if let V::Valid { id, .. } = self.st[i].val
                && let Some(got) = self.boot.load(i)
            {
                self.c.cov.count("loads_checked");
                if got != id {
                    let key = self.keys[i];
                    return self.viol(&["P09", "P08"], || format!("handle of key {key:?} loads {got}, its last value is {id}"));
                }
            }
        }
        Ok(())
    }

    fn start_life(&mut self) {
        let n = self.keys.len();
        self.boot = Boot::new(&self.keys);
        self.st = vec![K0 { inlist: false, val: V::Initial, big: false, entitled: None, partial: Partial::default() }; n];
        self.read_ok = false;
        self.read_tried = false;
        self.gc_due = false;
        self.timeline.clear();
        self.sto.inner.start_journal();
        self.note();
    }

    fn life(&mut self) -> Verdict {
        self.start_life();
        let n = self.keys.len();
        // usual boot: most keys are attached and read
        if self.c.rng.chance(4, 5) {
            for i in 0..n {
                if self.c.rng.chance(5, 6) {
                    self.attach(i)?;
                }
            }
            self.reads(self.c.iter % 3 == 0)?;
            if self.c.rng.chance(1, 2) {
                self.gc(true)?;
            }
        }
        let steps = 1 + self.c.rng.below(self.o.steps);
        for _ in 0..steps {
            if self.abandon {
                self.c.cov.count("abandoned");
                return Ok(());
            }
            self.step()?;
            self.loads()?;
        }
        if self.o.recover && !self.abandon {
            self.recover("end of life")?;
        }
        Ok(())
    }

    /// Boot every (sampled) power-cut image of this life; returns the image to continue from.
    fn sweep(&mut self) -> Result<Option<(S::Image, Vec<Rc<Snap>>)>, String> {
        let total = self.jl() + 1;
        let want = self.o.sweep.min(total);
        let mut pick: Vec<usize> = if want == total {
            (0..total).collect()
        } else {
            // a contiguous window keeps torn multi-step mutations together, plus random ones
            let w = want / 2;
            let s = self.c.rng.below(total - w + 1);
            let mut v: Vec<usize> = (s..s + w).collect();
            for _ in w..want {
                v.push(self.c.rng.below(total));
            }
            v.sort();
            v.dedup();
            v
        };
        pick.reverse();
        if pick.is_empty() {
            return Ok(None);
        }
        let cont = pick[self.c.rng.below(pick.len())];
        let mut images = vec![];
        {
            let p = &mut pick;
            self.sto.inner.replay(&mut |i, img| {
                if p.last() == Some(&i) {
                    p.pop();
                    images.push((i, img.clone()));
                }
                !p.is_empty()
            });
        }
        let mut out = None;
        for (j, img) in images {
            let cands: Vec<Rc<Snap>> = self
                .timeline
                .iter()
                .rev()
                .find(|(l, _)| *l <= j)
                .map(|x| x.1.clone())
                .unwrap_or_default();
            self.c.cov.count("power_cut_images");
            let v = self.judge_image(j, &img, &cands)?;
            if j == cont
                && let Some(v) = v
            {
                let keep: Vec<_> = cands.iter().filter(|s| s.kv == v).cloned().collect();
                let c = if keep.is_empty() {
                    vec![Rc::new(Snap { n: 0, kv: v })]
                } else {
                    keep
                };
                out = Some((img, c));
            }
        }
        Ok(out)
    }

    fn judge_image(
        &mut self,
        j: usize,
        img: &S::Image,
        cands: &[Rc<Snap>],
    ) -> Result<Option<Vec<Option<u64>>>, String> {
        let keys = self.keys.clone();
        let mut m = Mon::new(S::from_image(img), 1);
        self.c.cov.evals += 1;
        let r = observe::<K, _>(&mut m, &keys, &mut self.buf);
        let (v, mut boot) = match r {
            Ok(x) => x,
            Err(e) => {
                self.viol(&["P01", "P02", "P06"], || {
                    format!("fresh boot after a power cut at mutation {j}: {e}; contents {:?}", m.inner.elems())
                })?;
                return Ok(None);
            }
        };
        let h = hash(&(m.inner.elems(), &v));
        self.c.cov.seen(h);
        let iter = self.c.iter;
        self.c.cov.sample(|| {
            format!(
                "iteration {iter}: power cut after mutation {j}: contents {:?}; hydrated {v:?}; allowed {:?}",
                m.inner.elems(),
                cands.iter().map(|c| &c.kv).collect::<Vec<_>>()
            )
        });
        if self.c.is("P01") {
            for (k, obs) in v.iter().enumerate() {
                if !cands.iter().any(|s| s.kv[k] == *obs) {
                    return self
                        .viol(&["P01"], || {
                            format!(
                                "power cut at mutation {j}: key {:?} hydrates {obs:?}; acknowledged or in-flight values: {:?}; contents {:?}",
                                keys[k],
                                cands.iter().map(|s| s.kv[k]).collect::<Vec<_>>(),
                                m.inner.elems()
                            )
                        })
                        .map(|_| None);
                }
            }
        }
        if self.c.is("P02") && !cands.iter().any(|s| s.kv == v) {
            return self
                .viol(&["P02"], || {
                    format!(
                        "power cut at mutation {j}: hydrated {v:?} is not the content of one attempt: {:?}; contents {:?}",
                        cands.iter().map(|s| &s.kv).collect::<Vec<_>>(),
                        m.inner.elems()
                    )
                })
                .map(|_| None);
        }
        if self.c.is("P06") {
            // store something new as well
            let id = fresh_id();
            let _ = boot.write(0, id, 2);
            let want: Vec<Option<u64>> = (0..keys.len()).map(|i| boot.load(i)).collect();
            let mut r = None;
            for _ in 0..200 {
                let g = run_now(boot.list.process_garbage(&mut m, &mut self.buf));
                if !matches!(g, Some(Ok(_))) {
                    self.viol(&["P06"], || {
                        format!("boot after power cut at {j}: process_garbage {:?}", g.map(|x| x.map(|_| ())))
                    })?;
                }
                let now = m.inner.elems();
                m.resync(&now);
                r = run_now(boot.list.process_writes(&mut m, &mut self.buf));
                if matches!(r, Some(Ok(_))) || !m.medium_lost_data() {
                    break;
                }
                self.c.cov.count("torn_header_collisions");
            }
            if !matches!(r, Some(Ok(_))) {
                self.viol(&["P06"], || {
                    format!(
                        "boot after power cut at {j}: process_reads, process_garbage, process_writes: {:?}; contents {:?}",
                        r.map(|x| x.map(|_| ())),
                        m.inner.elems()
                    )
                })?;
            } else {
                let mut m2 = Mon::new(S::from_image(&m.inner.image()), 1);
                match observe::<K, _>(&mut m2, &keys, &mut self.buf) {
                    Ok((got, _b)) => {
                        if got != want {
                            self.viol(&["P06"], || {
                                format!("values written in the recovery after a power cut at {j}: {want:?}, next boot sees {got:?}")
                            })?;
                        }
                    }
                    Err(e) => {
                        self.viol(&["P06"], || format!("boot after recovery from a power cut at {j}: {e}"))?;
                    }
                }
                self.c.cov.count("power_cut_recoveries");
            }
        }
        drop(boot);
        Ok(Some(v))
    }

    fn run(&mut self) -> Verdict {
        for l in 0..self.o.lives {
            self.c.log(|| format!("--- life {l} ({} K={K})", S::name()));
            self.life()?;
            if self.abandon || self.o.sweep == 0 {
                if self.abandon {
                    return Ok(());
                }
                let img = self.sto.inner.image();
                let c = self.cands.clone();
                // graceful restart
                self.restart(&img, c);
                continue;
            }
            match self.sweep()? {
                Some((img, c)) => self.restart(&img, c),
                None => return Ok(()),
            }
        }
        Ok(())
    }
    fn restart(&mut self, img: &S::Image, c: Vec<Rc<Snap>>) {
        self.boot = Boot::new(&[]);
        self.sto = Mon::new(S::from_image(img), self.c.rng.u64());
        self.cands = c;
        self.attempt += 1;
    }
}

/// Random prior contents: intact records in arbitrary order of sequence numbers, leftovers and
/// undecodable elements.
pub fn prior_content(r: &mut Rng, keys: &[&str], k: usize) -> Vec<OElem> {
    prior_scaled(r, keys, k, 0, 6, false, false)
}

/// `many` > 0: about that many elements of leftovers in addition; `pad`: payload padding bound;
/// `rising`: in the order in which the crate would have written them.
pub fn prior_scaled(r: &mut Rng, keys: &[&str], k: usize, many: usize, pad: usize, rising: bool, last: bool) -> Vec<OElem> {
    let mut out = vec![];
    let mut used: Vec<u32> = vec![];
    let recs = r.range(0, k + 2) + many / (keys.len() + 2);
    let base = if last {
        // only a few numbers are left, or none
        u32::MAX - (24 + 3 * recs + r.below(12)) as u32
    } else {
        *r.pick(&[1u32, 1, 7, 0xfff0, 0x7fff_fff0, 0xffff_0000])
    };
    let spread = 24 + 2 * recs;
    // in some contents nearly everything is intact, in others nearly nothing
    let broken = if many > 0 && !rising { r.below(5) as u32 } else { 1 };
    // or sequence numbers rise or fall as a whole
    let order = if rising { 0 } else if many > 0 { r.below(3) } else { 2 };
    for n in 0..recs {
        match r.below(8) {
            0 => out.push(OElem::Bad),
            1 => out.push(OElem::Data(parse::enc_kv("zz", &[1]))),
            2 => out.push(OElem::End(base + r.below(9) as u32, r.u64() as u32)),
            _ => {}
        }
        let mut seq = match order {
            0 => base + n as u32,
            1 => base + (recs - n) as u32,
            _ => base + r.below(spread) as u32,
        };
        while used.contains(&seq) {
            seq += 1;
        }
        let mut bodies = vec![];
        let mut ks: Vec<usize> = (0..keys.len()).collect();
        r.shuffle(&mut ks);
        for i in ks.into_iter().take(r.range(1, keys.len())) {
            bodies.push(parse::enc_kv(keys[i], &Val::encoded(fresh_id(), r.below(pad) as u16)));
        }
        if r.chance(1, 4) {
            bodies.push(parse::enc_kv("other/key", &[0x18, 0x2a]));
        }
        if r.chance(1, 6) {
            // what an incompatible writer may have put there (no leading zero bytes: the checksum is
            // blind to those)
            let b = r.pick(&[&[0x18u8, 0x2a][..], &[0x1b], &[0x61, 0xff, 1], &[0x78], &[0x45, 1, 2]]).to_vec();
            let i = r.below(bodies.len() + 1);
            bodies.insert(i, b);
        }
        let mut rec = parse::build(seq, &bodies);
        if r.chance(broken, 4) {
            // damaged: not intact
            let i = r.below(rec.len());
            match r.below(3) {
                0 => {
                    rec.remove(i);
                }
                1 => rec[i] = OElem::Bad,
                _ => rec.truncate(i),
            }
        } else {
            used.push(seq);
        }
        out.extend(rec);
    }
    out
}

fn run_hist<const K: usize, S: Backend>(c: &mut Ctx, o: Opts, empty: S, room: usize) -> Verdict {
    let max = S::MAX_ELEM_SIZE;
    let big_part = room >= 20_000;
    let (nk, keys) = if o.scale && big_part && c.rng.chance(1, 2) {
        let nk = c.rng.range(6, 40);
        (nk, many_keys(nk))
    } else {
        let nk = c.rng.range(1, 5);
        // long keys where K+3 records with them leave the part room
        let spare = (room / ((K + 3) * (nk + 2))).min(max).saturating_sub(64);
        let k = pick_keys(&mut c.rng, nk, spare.max(24));
        (k.len(), k)
    };
    let mut inner = empty;
    if o.scale {
        let many = *c.rng.pick(&[0usize, 40, 150, 400, 900]);
        let pad = *c.rng.pick(&[6usize, 40, 120]);
        let pad = if big_part { pad } else { 6 };
        let many = if big_part { many } else { many.min(40) };
        // a flash queue cannot reclaim space behind an old element that stays, and the crate never
        // leaves newer records before older ones
        let rising = S::name() == "backend_nor";
        let e = prior_scaled(&mut c.rng, &keys, K, many, pad, rising, false);
        c.cov.max("max_prior_elements", e.len() as u64);
        c.cov.count("large_prior_contents");
        inner.preload(&e);
    } else if o.prior && c.rng.chance(1, 2) {
        // the end of the number range: writes must fail rather than repeat a number
        let last = matches!(c.prop, "P19" | "P16" | "P20") && c.rng.chance(1, 12);
        let e = prior_scaled(&mut c.rng, &keys, K, 0, 6, false, last);
        if last {
            c.cov.count("contents_near_the_last_number");
        }
        inner.preload(&e);
    }
    // keep K+2 records within the space of the part
    let per = room / ((K + 3) * (nk + 2));
    let longest = keys.iter().map(|k| k.len()).max().unwrap_or(0).max(24);
    let over = longest + 36;
    let max_pad = per.saturating_sub(over).min(max.saturating_sub(over)).clamp(4, 300);
    // at times larger than it needs to be
    let buflen = max.min(4096) + if c.rng.chance(1, 6) { c.rng.range(1, 100) } else { 0 };
    let seed = c.rng.u64();
    c.log(|| format!("backend {} K={K} keys {keys:?} max_pad {max_pad}", S::name()));
    c.cov.count(S::name());
    let mut h: H<'_, K, S> = H {
        c,
        sto: Mon::new(inner, seed),
        boot: Boot::new(&[]),
        keys,
        buf: vec![0; buflen],
        st: vec![],
        cands: vec![],
        timeline: vec![],
        attempt: 0,
        read_ok: false,
        read_tried: false,
        gc_due: false,
        abandon: false,
        o,
        max_pad,
    };
    h.cands = vec![Rc::new(h.stored_snap())];
    h.run()
}

fn dispatch_k<S: Backend>(c: &mut Ctx, o: Opts, s: S, room: usize) -> Verdict {
    if room >= 20_000 && c.rng.chance(1, 40) {
        return match c.rng.below(3) {
            0 => run_hist::<8, S>(c, o, s, room),
            1 => run_hist::<9, S>(c, o, s, room),
            _ => run_hist::<17, S>(c, o, s, room),
        };
    }
    match c.rng.below(8) {
        0 | 1 => run_hist::<1, S>(c, o, s, room),
        2 | 3 => run_hist::<2, S>(c, o, s, room),
        4 | 5 | 6 => run_hist::<3, S>(c, o, s, room),
        _ => run_hist::<5, S>(c, o, s, room),
    }
}

fn nor<const K: usize, const R: usize, const W: usize, const E: usize, const P: usize, C: MkCache>(
    c: &mut Ctx,
    o: Opts,
) -> Verdict {
    run_hist::<K, _>(c, o, NorBack::<R, W, E, P, C>::new(), (P - 2) * (E - 16))
}

pub fn iteration(c: &mut Ctx) -> Verdict {
    go(c)
}

fn go(c: &mut Ctx) -> Verdict {
    let p = c.prop;
    let deep = c.tier == crate::driver::Tier::Thorough;
    let crash = matches!(p, "P01" | "P02" | "P06");
    let mut o = Opts {
        op_faults: !c.rng.chance(1, 4),
        low_faults: c.rng.chance(1, 2),
        garble: matches!(p, "P06" | "P07" | "P08" | "P05" | "P04" | "P19") && c.rng.chance(1, 2),
        big: matches!(p, "P06" | "P07" | "P08") && c.rng.chance(1, 3),
        sweep: if crash { if deep { 400 } else { 120 } } else { 0 },
        recover: matches!(p, "P06" | "P07") || c.rng.chance(1, 3),
        lives: 1 + c.rng.below(3),
        steps: if deep && c.rng.chance(1, 4) { 120 } else { 40 },
        prior: true,
        reset: c.rng.chance(1, 4),
        scale: c.rng.chance(1, if crash { 400 } else { 120 }),
    };
    if o.scale {
        o.low_faults = false;
        o.sweep = o.sweep.min(24);
        o.lives = 1;
        o.steps = 14;
        return if c.rng.chance(3, 4) {
            dispatch_k(c, o, ElemStore::<300>::new(), 20_000)
        } else {
            nor::<2, 4, 4, 4096, 8, NoCache>(c, o)
        };
    }
    match c.rng.below(12) {
        0..=5 => {
            o.low_faults = false;
            dispatch_k(c, o, ElemStore::<300>::new(), 20_000)
        }
        6 => nor::<3, 1, 4, 256, 16, NoCache>(c, o),
        7 => nor::<1, 4, 4, 512, 10, PageStateCache<10>>(c, o),
        8 => nor::<2, 1, 1, 256, 16, PagePointerCache<16>>(c, o),
        9 => nor::<3, 1, 8, 1024, 6, KeyPointerCache<6, u8, 4>>(c, o),
        10 if c.rng.chance(1, 2) => nor::<2, 4, 4, 4096, 3, NoCache>(c, o),
        10 => nor::<2, 8, 4, 1024, 8, NoCache>(c, o),
        _ => nor::<5, 8, 16, 1024, 10, PagePointerCache<10>>(c, o),
    }
}

pub fn checks() -> Vec<Check> {
    let base = |prop, rule, must_see, quick_iters| Check {
        prop,
        level: "fault_enumeration",
        rule,
        assumptions: &[],
        quick_iters,
        quick_secs: 150,
        thorough_secs: 780,
        run: go,
        must_see,
    };
    vec![
        base("P01", "random API history with faults on an abstract store or simulated NOR part; every (sampled) journaled mutation is a power-cut image that is booted afresh. Non-trivial: distinct (storage contents, hydrated vector) pairs and distinct (contents, call, outcome) triples", &["power_cut_images", "writes_stored"], 60000),
        base("P02", "as P01, judged jointly over all keys", &["power_cut_images", "writes_stored"], 60000),
        base("P04", "every invalidate call of every collection is judged against an independent parse of the contents at its start", &["invalidations_judged", "gc_err", "gc_dropped"], 200000),
        base("P06", "recovery sequences on the running list after faults, and on a fresh boot of every power-cut image", &["recoveries_ok", "power_cut_recoveries"], 25000),
        base("P07", "after every reported success the newest intact record is compared with the current values, with silently altered, dropped or duplicated elements", &["acknowledged_records_compared", "verification_failures"], 200000),
        base("P19", "sequence number of every stored record compared with all intact records before it", &["sequence_numbers_checked"], 200000),
        base("P20", "append/invalidate calls counted in every non-writing call; element contents compared", &["gc_with_nothing_due", "writes_with_precondition_missing"], 200000),
        base("P21", "reported byte counters compared with the traffic the storage wrapper measured in the call", &["reads_reports_checked", "writes_reports_checked", "gc_reports_checked"], 200000),
    ]
}
