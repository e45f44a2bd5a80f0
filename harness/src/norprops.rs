//! P18 (the NOR backend stores elements faithfully), P22 (wear), endurance part of P05.
use crate::{
    driver::{Check, Ctx, Verdict, hash},
    exec::run_now,
    hist,
    nor::{MkCache, NorBack, NorSim, decode},
    sim::{Boot, KEYS, SimMutex, fresh_id},
    store::{Backend, ElemStore, OElem},
    types::key_pool,
};
use cfg_noodle::{
    Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList, StorageListNode,
    error::Error, flash::Flash,
};
use minicbor::bytes::ByteVec;
use sequential_storage::cache::{KeyPointerCache, NoCache, PagePointerCache, PageStateCache};
use std::num::NonZeroU32;

type SsErr = sequential_storage::Error<crate::nor::NorErr>;

fn sound(core: &crate::nor::CoreRef) -> Verdict {
    let c = core.borrow();
    if !c.illegal.is_empty() {
        return Err(format!("programs bits from 0 to 1: {:?}", c.illegal));
    }
    if !c.stray.is_empty() {
        return Err(format!("accesses outside of the assigned range: {:?}", c.stray));
    }
    Ok(())
}

// ------------------------------------------------------------------ P18: element model

fn gen_elem(c: &mut Ctx, max: usize) -> OElem {
    match c.rng.below(10) {
        0 => OElem::Start(gen_seq(c)),
        1 => OElem::End(gen_seq(c), c.rng.u64() as u32),
        n => {
            let len = match n {
                2 | 3 => max - c.rng.below(4),
                4 => 2 + c.rng.below(3),
                5 => c.rng.range(2, max),
                _ => c.rng.range(2, max.min(80)),
            };
            // the body of a data element, without its header byte
            let mut b = c.rng.bytes(len - 1);
            match c.rng.below(6) {
                0 => b.fill(0xFF),
                1 => b.fill(0),
                _ => {}
            }
            OElem::Data(b)
        }
    }
}
fn gen_seq(c: &mut Ctx) -> u32 {
    match c.rng.below(4) {
        0 => *c.rng.pick(&[1u32, 255, 256, 65535, 65536, u32::MAX - 1, u32::MAX, 0x0100_0000]),
        _ => (c.rng.u64() as u32).max(1),
    }
}

fn size_of(e: &OElem) -> usize {
    match e {
        OElem::Start(_) => 5,
        OElem::End(..) => 9,
        OElem::Data(b) => b.len() + 1,
        OElem::Bad => 0,
    }
}

fn push_elem<const R: usize, const W: usize, const E: usize, C: MkCache>(
    f: &mut Flash<NorSim<R, W, E>, C>,
    e: &OElem,
) -> Result<usize, String> {
    let nz = |n: u32| NonZeroU32::new(n).unwrap();
    let mut body;
    let elem = match e {
        OElem::Start(s) => Elem::Start { seq_no: nz(*s) },
        OElem::End(s, crc) => Elem::End { seq_no: nz(*s), calc_crc: *crc },
        OElem::Data(b) => {
            body = vec![0x77];
            body.extend_from_slice(b);
            Elem::Data { data: SerData::new(&mut body).unwrap() }
        }
        OElem::Bad => unreachable!(),
    };
    match run_now(f.push(&elem)) {
        Some(Ok(n)) => Ok(n),
        Some(Err(SsErr::FullStorage)) => Err("full".into()),
        x => Err(format!("{x:?}")),
    }
}

/// One pass over the contents; `drop_if(i)` elements are invalidated; stops after `upto`.
fn pass<const R: usize, const W: usize, const E: usize, C: MkCache>(
    f: &mut Flash<NorSim<R, W, E>, C>,
    buf: &mut [u8],
    upto: usize,
    mut drop_if: impl FnMut(usize) -> bool,
) -> Result<Vec<(OElem, usize)>, String> {
    run_now(async {
        let mut out = vec![];
        let mut it = f.iter_elems().await.map_err(|e| format!("iter_elems: {e:?}"))?;
        loop {
            if out.len() >= upto {
                break;
            }
            let i = out.len();
            let Some(n) = it.next(buf).await.map_err(|e| format!("next #{i}: {e:?}"))? else {
                break;
            };
            out.push((OElem::from_opt(n.data()), n.len()));
            if drop_if(i) {
                n.invalidate().await.map_err(|e| format!("invalidate #{i}: {e:?}"))?;
            }
        }
        Ok(out)
    })
    .unwrap_or(Err("an operation on working flash never ended".into()))
}

fn show(e: &OElem) -> String {
    match e {
        OElem::Data(b) if b.len() > 24 => format!("Data({} bytes)", b.len() + 1),
        e => format!("{e:?}"),
    }
}

fn same(model: &[(OElem, usize)], got: &[(OElem, usize)], what: &str) -> Verdict {
    if model.len() == got.len() && model.iter().zip(got).all(|(a, b)| a == b) {
        return Ok(());
    }
    let at = model.iter().zip(got).position(|(a, b)| a != b).unwrap_or(model.len().min(got.len()));
    let s = |v: &[(OElem, usize)]| v.get(at).map(|(e, n)| format!("{} (len {n})", show(e))).unwrap_or("nothing".into());
    Err(format!(
        "{what}: {} elements appended and not invalidated, {} read back; first difference at #{at}: expected {}, read {}",
        model.len(),
        got.len(),
        s(model),
        s(got)
    ))
}

fn elements<const R: usize, const W: usize, const E: usize, const P: usize, C: MkCache, C2: MkCache>(
    c: &mut Ctx,
) -> Verdict {
    type Bk<const R: usize, const W: usize, const E: usize, const P: usize, C> = NorBack<R, W, E, P, C>;
    let max = <Bk<R, W, E, P, C> as NdlDataStorage>::MAX_ELEM_SIZE;
    // documented: a scratch buffer of MAX_ELEM_SIZE is enough
    let mut buf = vec![0u8; max + if c.rng.chance(1, 2) { 0 } else { c.rng.below(70) }];
    let mut mem = vec![0xFFu8; (P + 2) * E];
    let mut model: Vec<(OElem, usize)> = vec![];
    c.cov.count(C::NAME);
    c.cov.add("geometries_run", 1);
    let mounts = 1 + c.rng.below(4);
    c.log(|| format!("R={R} W={W} E={E} P={P} max={max} {}", C::NAME));
    for mount in 0..mounts {
        let m = std::mem::take(&mut mem);
        mem = if mount % 2 == 0 {
            mounted::<R, W, E, P, C>(c, m, &mut model, &mut buf, max)?
        } else {
            mounted::<R, W, E, P, C2>(c, m, &mut model, &mut buf, max)?
        };
        c.cov.count("mounts");
    }
    Ok(())
}

fn mounted<const R: usize, const W: usize, const E: usize, const P: usize, C: MkCache>(
    c: &mut Ctx,
    mem: Vec<u8>,
    model: &mut Vec<(OElem, usize)>,
    buf: &mut [u8],
    max: usize,
) -> Result<Vec<u8>, String> {
    let mut b = NorBack::<R, W, E, P, C>::from_mem(mem);
    let steps = 3 + c.rng.below(if E > 20_000 { 12 } else { 40 });
    for _ in 0..steps {
        match c.rng.below(10) {
            0..=5 => {
                let burst = if E > 20_000 { 1 } else { 1 + c.rng.below(6) };
                for _ in 0..burst {
                    let e = gen_elem(c, max);
                    let n = size_of(&e);
                    c.log(|| format!("push {}", show(&e)));
                    match push_elem(&mut b.flash, &e) {
                        Ok(len) => {
                            model.push((e, len));
                            c.cov.count("elements_appended");
                            if n == max {
                                c.cov.count("elements_of_exactly_max_size");
                            }
                        }
                        Err(m) if m == "full" => {
                            c.cov.count("storage_full");
                            c.log(|| "  full".into());
                            if model.is_empty() && P >= 2 {
                                return Err(format!("append of {n} bytes (max {max}) to an empty storage of {P} pages fails: storage full"));
                            }
                        }
                        Err(m) => return Err(format!("append of {n} bytes (max {max}) fails: {m}")),
                    }
                }
            }
            6 => {
                let got = pass(&mut b.flash, buf, usize::MAX, |_| false)?;
                same(model, &got, "full pass")?;
                c.cov.count("passes_compared");
                c.cov.add("elements_compared", got.len() as u64);
                c.cov.seen(hash(&(E, W, R, got.len(), got.first().map(|x| x.1))));
            }
            7 => {
                let k = c.rng.below(model.len() + 1);
                let got = pass(&mut b.flash, buf, k, |_| false)?;
                same(&model[..k], &got, "partial pass")?;
                c.cov.count("partial_passes");
            }
            8 | 9 => {
                let mode = c.rng.below(4);
                let cut = c.rng.below(model.len() + 1);
                let pick: Vec<bool> = (0..model.len())
                    .map(|i| match mode {
                        0 => i < cut,
                        1 => c.rng.chance(1, 2),
                        2 => true,
                        _ => i == cut,
                    })
                    .collect();
                c.log(|| format!("invalidate {pick:?}"));
                let got = pass(&mut b.flash, buf, usize::MAX, |i| pick.get(i).copied().unwrap_or(false))?;
                same(model, &got, "pass with invalidation")?;
                let mut i = 0;
                model.retain(|_| {
                    i += 1;
                    !pick[i - 1]
                });
                c.cov.add("elements_invalidated", pick.iter().filter(|x| **x).count() as u64);
                let got = pass(&mut b.flash, buf, usize::MAX, |_| false)?;
                same(model, &got, "pass after invalidation")?;
            }
            _ => {}
        }
        sound(&b.core)?;
        c.cov.evals += 1;
    }
    let got = pass(&mut b.flash, buf, usize::MAX, |_| false)?;
    same(model, &got, "last pass of the mount")?;
    let raw: Vec<OElem> = crate::nor::raw_elems::<R, W, E>(&b.core.borrow().mem, E, (P + 1) * E)
        .iter()
        .map(|x| decode(x))
        .collect();
    if raw.len() != model.len() || raw.iter().zip(model.iter()).any(|(a, b)| *a != b.0) {
        return Err("the raw queue contents are not the elements in their documented encoding".into());
    }
    c.cov.count("raw_contents_compared");
    let mem = b.core.borrow().mem.clone();
    Ok(mem)
}

// ------------------------------------------------------------------ P18: size limits

fn limits<const K: usize, S: Backend>(c: &mut Ctx, mut sto: S, rounds: usize) -> Verdict {
    let max = S::MAX_ELEM_SIZE;
    // documented: a scratch buffer of MAX_ELEM_SIZE (with a larger one, elements between the
    // maximum and the length field's limit may be written on parts with very large pages)
    let mut buf = vec![0u8; max + if max > 60_000 || c.rng.chance(1, 2) { 0 } else { c.rng.below(70) }];
    let pool = key_pool();
    c.cov.count(S::name());
    let mut last: Option<(&'static str, Vec<u8>)> = None;
    for _ in 0..rounds {
        let keys: Vec<&'static str> = pool.iter().copied().filter(|k| k.len() + 20 < max).collect();
        let key = *c.rng.pick(&keys);
        let khead = match key.len() {
            0..=23 => 1,
            24..=255 => 2,
            _ => 3,
        };
        // target total size around the limit, or small
        let total = if c.rng.chance(4, 5) { max + 3 - c.rng.below(8) } else { c.rng.range(key.len() + 12, max) };
        // value: byte string with its head
        let room = total - 1 - khead - key.len();
        let mut n = room;
        while n + head(n) > room {
            n -= 1;
        }
        let v = ByteVec::from(c.rng.bytes(n));
        let vlen = minicbor::to_vec(&v).unwrap().len();
        let real = 1 + khead + key.len() + vlen;
        let says = S::check_node_size(key, v.clone());
        let should = real <= max;
        c.log(|| format!("key of {} bytes, value of {vlen}: element of {real}, max {max}", key.len()));
        if says != should {
            return Err(format!("check_node_size says {says} for an element of {real} bytes (max {max}, key {} bytes)", key.len()));
        }
        // through the list
        let list: &'static StorageList<SimMutex, K> = Box::leak(Box::new(StorageList::new()));
        let node: &'static StorageListNode<ByteVec> = Box::leak(Box::new(StorageListNode::new(key)));
        type At<const K: usize> = std::pin::Pin<Box<dyn Future<Output = Result<cfg_noodle::StorageListNodeHandle<ByteVec, SimMutex, K>, Error>>>>;
        let mut at: At<K> = Box::pin(node.attach_with_default(list, || ByteVec::from(vec![])));
        if crate::exec::run_pinned(&mut at, 100).is_some() {
            return Err("attach ended before a read".into());
        }
        let r = run_now(list.process_reads(&mut sto, &mut buf));
        if !matches!(r, Some(Ok(_))) {
            return Err(format!("process_reads with a buffer of {} (max element {max}): {r:?}", buf.len()));
        }
        let Some(Ok(mut h)) = crate::exec::run_pinned(&mut at, 100) else {
            return Err("attach does not end".into());
        };
        drop(at);
        if let Some((k, lv)) = &last
            && *k == key
            && h.load().as_slice() != lv.as_slice()
        {
            return Err(format!("an acknowledged value of {} bytes is not what a new boot hydrates", lv.len()));
        }
        if !matches!(run_now(h.write(&v)), Some(Ok(()))) {
            return Err("write through the handle".into());
        }
        let mut r = None;
        for _ in 0..2 {
            let g = run_now(list.process_garbage(&mut sto, &mut buf));
            if !matches!(g, Some(Ok(_))) {
                return Err(format!("process_garbage with a buffer of {}: {g:?}", buf.len()));
            }
            r = run_now(list.process_writes(&mut sto, &mut buf));
            if matches!(r, Some(Ok(_))) == should {
                break;
            }
        }
        match (&r, should) {
            (Some(Ok(_)), true) => {
                c.cov.count("elements_within_the_limit_written");
                if real == max {
                    c.cov.count("elements_of_exactly_max_size");
                }
                let e = sto.elems();
                let n = crate::parse::newest(&e).ok_or("no intact record after an acknowledged write")?;
                let want = minicbor::to_vec(&v).unwrap();
                if n.kv.len() != 1 || n.kv[0] != (key.to_string(), want) {
                    return Err(format!("the record written for an element of {real} bytes does not hold it"));
                }
                last = Some((key, v.to_vec()));
            }
            (Some(Err(_)), false) => {
                c.cov.count("elements_over_the_limit_refused");
                // what was stored before stays
                let e = sto.elems();
                if let Some((k, lv)) = &last {
                    let n = crate::parse::newest(&e).ok_or("the earlier record is gone after a refused write")?;
                    let want = minicbor::to_vec(ByteVec::from(lv.clone())).unwrap();
                    if n.kv.len() != 1 || n.kv[0] != (k.to_string(), want) {
                        return Err("the earlier record is not the newest one after a refused write".into());
                    }
                }
            }
            (r, _) => {
                return Err(format!(
                    "check_node_size says {says} for an element of {real} bytes (max {max}), process_writes says {r:?}"
                ));
            }
        }
        c.cov.evals += 1;
        c.cov.seen(hash(&(max, real as i64 - max as i64, key.len())));
        drop(h);
        if run_now(node.detach(list)) == Some(Ok(())) {
            unsafe {
                crate::sim::unleak(node);
                crate::sim::unleak(list);
            }
        }
    }
    Ok(())
}
fn head(n: usize) -> usize {
    match n {
        0..=23 => 1,
        24..=255 => 2,
        256..=65535 => 3,
        _ => 5,
    }
}

type Pp<const P: usize> = PagePointerCache<P>;
type Ps<const P: usize> = PageStateCache<P>;
type Kp<const P: usize> = KeyPointerCache<P, u8, 4>;

fn p18(c: &mut Ctx) -> Verdict {
    if c.rng.chance(1, 3) {
        c.cov.count("limit_rounds");
        return match c.rng.below(40) {
            0..=6 => limits::<2, _>(c, NorBack::<1, 4, 256, 16, NoCache>::new(), 4),
            7..=12 => limits::<3, _>(c, NorBack::<1, 1, 128, 24, Pp<24>>::new(), 4),
            13..=18 => limits::<1, _>(c, NorBack::<4, 4, 512, 10, Ps<10>>::new(), 4),
            19..=23 => limits::<2, _>(c, NorBack::<1, 8, 1024, 10, NoCache>::new(), 4),
            24..=27 => limits::<2, _>(c, NorBack::<4, 32, 512, 12, Pp<12>>::new(), 4),
            28..=31 => limits::<3, _>(c, NorBack::<16, 4, 320, 16, NoCache>::new(), 4),
            32 | 33 => limits::<2, _>(c, NorBack::<1, 4, 4096, 10, Pp<10>>::new(), 3),
            34 => limits::<1, _>(c, NorBack::<1, 4, 65536, 6, Pp<6>>::new(), 2),
            35 => limits::<1, _>(c, NorBack::<1, 4, 131072, 6, Pp<6>>::new(), 2),
            36 => limits::<1, _>(c, NorBack::<4, 8, 131072, 6, NoCache>::new(), 2),
            37 => limits::<2, _>(c, ElemStore::<64>::new(), 4),
            38 => limits::<2, _>(c, ElemStore::<300>::new(), 4),
            _ => limits::<3, _>(c, ElemStore::<1000>::new(), 4),
        };
    }
    match c.rng.below(60) {
        0..=4 => elements::<1, 4, 256, 4, NoCache, Pp<4>>(c),
        5..=9 => elements::<1, 1, 64, 8, Pp<8>, NoCache>(c),
        10..=14 => elements::<4, 4, 256, 3, Ps<3>, Kp<3>>(c),
        15..=18 => elements::<1, 8, 512, 4, NoCache, Ps<4>>(c),
        19..=22 => elements::<4, 16, 256, 6, Pp<6>, Ps<6>>(c),
        23..=26 => elements::<1, 32, 512, 4, Kp<4>, NoCache>(c),
        27..=30 => elements::<8, 4, 128, 6, NoCache, Pp<6>>(c),
        31..=34 => elements::<16, 1, 256, 4, Pp<4>, NoCache>(c),
        35..=38 => elements::<1, 4, 320, 5, Pp<5>, NoCache>(c),
        39..=42 => elements::<2, 2, 96, 7, Ps<7>, Pp<7>>(c),
        43..=45 => elements::<1, 1, 1024, 2, NoCache, Pp<2>>(c),
        46..=48 => elements::<1, 4, 256, 1, NoCache, Pp<1>>(c),
        49..=51 => elements::<1, 4, 4096, 4, Pp<4>, NoCache>(c),
        52..=54 => elements::<32, 32, 1024, 16, Pp<16>, Kp<16>>(c),
        55 => elements::<1, 4, 65536, 3, Pp<3>, NoCache>(c),
        56 => elements::<1, 4, 131072, 3, NoCache, Pp<3>>(c),
        57 => elements::<8, 8, 131072, 3, Pp<3>, Ps<3>>(c),
        58 => elements::<1, 1, 131072, 2, Pp<2>, NoCache>(c),
        _ => elements::<4, 32, 131072, 3, NoCache, Pp<3>>(c),
    }
}

// ------------------------------------------------------------------ P22 / P05: long runs

/// Many update, write and collect rounds with `nkeys` keys on a storage that has room for K+2
/// records (plus what pages waste); returns nothing if space never ran out and wear stayed even.
fn endurance<
    const K: usize,
    const R: usize,
    const W: usize,
    const E: usize,
    const P: usize,
    C: MkCache,
>(
    c: &mut Ctx,
    rounds: usize,
) -> Verdict {
    let word = if R > W { R } else { W };
    let up = |n: usize| n.next_multiple_of(word);
    let item = |n: usize| up(8) + up(n);
    let page_room = E - 2 * word;
    // the largest padding for which K+2 records fit
    let nkeys = 1 + c.rng.below(6);
    let keys = &KEYS[..nkeys];
    let size = |pad: usize| -> (usize, usize) {
        let items: Vec<usize> = keys
            .iter()
            .map(|k| item(1 + k.len() + 2 + 1 + 9 + head(pad) + pad))
            .collect();
        let max = items.iter().copied().max().unwrap().max(item(9));
        (items.iter().sum::<usize>() + item(5) + item(9), max)
    };
    let fits = |pad: usize| {
        let (rec, max) = size(pad);
        if max > page_room {
            return false;
        }
        // every closed page wastes less than the item that did not fit; the oldest page may be
        // partly collected, the youngest partly filled
        let per_page = page_room - (max - word);
        per_page > 0 && ((K + 2) * rec).div_ceil(per_page) + 2 <= P
    };
    let mut top = 0;
    while top < page_room && fits(top + 1) {
        top += 1;
    }
    if !fits(top) {
        c.cov.count("geometry_too_small");
        return Ok(());
    }
    let top = if c.rng.chance(1, 3) { c.rng.below(top + 1) } else { top };
    let fixed = c.rng.chance(1, 3);
    let mut sto = NorBack::<R, W, E, P, C>::new();
    let mut buf = vec![0u8; page_room.max(64)];
    c.log(|| format!("K={K} R={R} W={W} E={E} P={P} {} keys={nkeys} top={top} fixed={fixed}", C::NAME));
    let faulty = c.is("P05") && c.rng.chance(1, 3);
    let mut boot = Boot::<K>::new(keys);
    let attach = |boot: &mut Boot<K>, sto: &mut NorBack<R, W, E, P, C>, buf: &mut [u8]| -> Verdict {
        for i in 0..nkeys {
            if boot.begin_attach(i, 1.min(top) as u16).is_some() {
                return Err("attach ended before a read".into());
            }
        }
        let r = run_now(boot.list.process_reads(sto, buf));
        if !matches!(r, Some(Ok(_))) {
            return Err(format!("process_reads on working storage: {r:?}"));
        }
        for i in 0..nkeys {
            if !matches!(boot.poll_attach(i), Some(Ok(()))) {
                return Err("attach does not end after a good read".into());
            }
        }
        Ok(())
    };
    attach(&mut boot, &mut sto, &mut buf)?;
    let mut appended = 0u64;
    let mut done = 0u64;
    for n in 0..rounds {
        if c.rng.chance(1, 60) {
            // power cycle between calls
            boot = Boot::<K>::new(keys);
            let img = sto.image();
            let wear = sto.core.borrow().erases.clone();
            let (bad, stray) = (sto.core.borrow().illegal.clone(), sto.core.borrow().stray.clone());
            let w = sto.core.borrow().bytes_written;
            sto = NorBack::from_image(&img);
            {
                let mut k = sto.core.borrow_mut();
                k.erases = wear;
                k.illegal = bad;
                k.stray = stray;
                k.bytes_written = w;
            }
            attach(&mut boot, &mut sto, &mut buf)?;
            c.cov.count("power_cycles");
        }
        for i in 0..nkeys {
            if i == n % nkeys || c.rng.chance(1, 3) {
                let pad = if fixed { top } else { c.rng.below(top + 1) };
                if !matches!(boot.write(i, fresh_id(), pad as u16), Some(Ok(()))) {
                    return Err("write through a handle".into());
                }
            }
        }
        let mut inj = faulty && c.rng.chance(1, 12);
        if inj {
            let at = sto.core.borrow().opno + c.rng.below(200) as u64;
            let f = if c.rng.chance(1, 2) {
                crate::nor::NorFault::Err
            } else {
                crate::nor::NorFault::Partial(c.rng.below(8))
            };
            sto.core.borrow_mut().faults.insert(at, f);
        }
        let mut tries = 0;
        loop {
            let g = run_now(boot.list.process_garbage(&mut sto, &mut buf));
            let r = if matches!(g, Some(Ok(_))) {
                c.cov.count("collections");
                run_now(boot.list.process_writes(&mut sto, &mut buf))
            } else {
                if !inj {
                    return Err(format!("round {n}: process_garbage on working storage: {g:?}"));
                }
                None
            };
            match r {
                Some(Ok(_)) => break,
                r => {
                    if !inj {
                        return Err(format!(
                            "round {n}: space for {} records of the largest size, {K} retained: process_writes: {r:?}",
                            K + 2
                        ));
                    }
                    c.cov.count("failed_attempts");
                    tries += 1;
                    if tries > 2 {
                        sto.low_clear();
                        inj = false;
                    }
                }
            }
        }
        sto.low_clear();
        done += 1;
        appended = appended.max(sto.core.borrow().bytes_written);
    }
    // a final collection leaves at most K records
    let g = run_now(boot.list.process_garbage(&mut sto, &mut buf));
    if !matches!(g, Some(Ok(_))) {
        return Err(format!("last process_garbage: {g:?}"));
    }
    let e = sto.elems();
    let want = crate::parse::kept_elems(&e, K);
    if e != want {
        return Err(format!("after {rounds} rounds and a collection: {} elements, {} of them belong to the {K} newest intact records", e.len(), want.len()));
    }
    c.cov.add("update_rounds", done);
    c.cov.evals += done;
    let core = sto.core.borrow();
    let w: Vec<u64> = core.erases[1..=P].to_vec();
    let total: u64 = w.iter().sum();
    c.cov.add("page_erases", total);
    c.cov.max("max_erases_of_a_page", *w.iter().max().unwrap());
    c.cov.add("bytes_programmed", appended);
    c.cov.seen(hash(&(K, R, W, E, P, nkeys, top, total)));
    if c.is("P22") {
        let (lo, hi) = (*w.iter().min().unwrap(), *w.iter().max().unwrap());
        c.cov.max("max_wear_difference", hi - lo);
        c.log(|| format!("erases {w:?}, bytes {appended}"));
        if hi - lo > 2 {
            return Err(format!("uneven wear after {rounds} updates: erases per page {w:?}"));
        }
        let (_, max) = size(top);
        let used = (page_room - (max - word)).max(1);
        let bound = appended / used as u64 + P as u64 + 2;
        if total > bound {
            return Err(format!(
                "{total} page erases for {appended} bytes programmed (pages of {E}): more than the {bound} that data accounts for"
            ));
        }
        c.cov.count("wear_judged");
        if hi >= 3 {
            c.cov.count("runs_with_every_page_erased_often");
        }
    }
    drop(core);
    sound(&sto.core)
}

fn long_run(c: &mut Ctx, rounds: usize) -> Verdict {
    let n = c.rng.range(rounds / 2, rounds);
    match c.rng.below(14) {
        0 => endurance::<1, 1, 4, 256, 8, NoCache>(c, n),
        1 => endurance::<2, 1, 4, 256, 12, Pp<12>>(c, n),
        2 => endurance::<3, 4, 4, 256, 16, NoCache>(c, n),
        3 => endurance::<1, 1, 1, 128, 12, Ps<12>>(c, n),
        4 => endurance::<2, 1, 1, 512, 6, NoCache>(c, n),
        5 => endurance::<2, 1, 8, 512, 10, Pp<10>>(c, n),
        6 => endurance::<3, 4, 16, 1024, 8, Pp<8>>(c, n),
        7 => endurance::<1, 1, 32, 1024, 8, NoCache>(c, n),
        8 => endurance::<3, 1, 4, 4096, 4, Pp<4>>(c, n),
        9 => endurance::<2, 4, 4, 320, 9, NoCache>(c, n),
        10 => endurance::<4, 1, 4, 512, 16, Kp<16>>(c, n),
        11 => endurance::<2, 8, 2, 256, 14, Pp<14>>(c, n),
        12 => endurance::<1, 1, 4, 4096, 3, NoCache>(c, n),
        _ => endurance::<5, 1, 4, 1024, 10, Pp<10>>(c, n),
    }
}

fn p22(c: &mut Ctx) -> Verdict {
    long_run(c, 600)
}
fn p05(c: &mut Ctx) -> Verdict {
    if c.rng.chance(1, 400) {
        c.cov.count("long_runs");
        long_run(c, 300)
    } else {
        hist::iteration(c)
    }
}


pub fn checks() -> Vec<Check> {
    vec![
        Check {
            prop: "P18",
            level: "exploration",
            rule: "two families: element sequences pushed to, invalidated in and read from the real Flash over simulated parts of 19 geometries (model: vector of elements), and elements around the maximum size through check_node_size and process_writes; distinct = (geometry, contents) and (max, size, key length)",
            assumptions: &["the sequential-storage queue is part of the monitored system; its raw contents are also read back with a scratch mount of it", "data elements have a non-empty body"],
            quick_iters: 60_000,
            quick_secs: 200,
            thorough_secs: 780,
            run: p18,
            must_see: &["elements_compared", "elements_invalidated", "elements_of_exactly_max_size", "elements_over_the_limit_refused", "storage_full"],
        },
        Check {
            prop: "P22",
            level: "exploration",
            rule: "300 to 600 update, write, collect rounds per run on small simulated parts of 14 geometries; erase counters per page, programmed bytes and bit transitions judged; distinct = run shapes",
            assumptions: &[],
            quick_iters: 1500,
            quick_secs: 200,
            thorough_secs: 780,
            run: p22,
            must_see: &["wear_judged", "page_erases", "runs_with_every_page_erased_often"],
        },
        Check {
            prop: "P05",
            level: "fault_enumeration",
            rule: "contents after every successful collection compared element by element with an independent parse; one iteration in 400 is a run of up to 300 update rounds on a part with room for K+2 records, which must never be full; distinct = (contents, call, outcome) triples and run shapes",
            assumptions: &[],
            quick_iters: 200_000,
            quick_secs: 200,
            thorough_secs: 780,
            run: p05,
            must_see: &["collections_compared", "collections_that_removed", "update_rounds"],
        },
    ]
}
