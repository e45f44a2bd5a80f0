//! What hydration makes of arbitrary element sequences (P03), and that nothing in storage, no
//! buffer and no payload size makes an operation panic, hang or overflow (P16).
use crate::{
    driver::{Check, Ctx, Verdict, hash},
    exec::run_now,
    nor::{self, NorBack, NorSim},
    parse,
    rng::Rng,
    sim::{Boot, Val, many_keys, pick_keys, fresh_id, stored_id},
    store::{Backend, ElemStore, Mon, OElem},
};
use sequential_storage::cache::{KeyPointerCache, NoCache, PagePointerCache, PageStateCache};

// ------------------------------------------------------------------ element sequences

/// Bytes that are not the canonical encoding of a text-string head (a foreign writer could use a
/// longer head than needed; what that means is not specified).
fn foreign_body(r: &mut Rng) -> Vec<u8> {
    let n = r.range(1, 12);
    let mut b = r.bytes(n);
    if (0x78..=0x7f).contains(&b[0]) {
        b[0] = 0x9f;
    }
    b
}

fn body(r: &mut Rng, keys: &[&str]) -> Vec<u8> {
    let key = if r.chance(1, 6) { "not/attached" } else { *r.pick(keys) };
    match r.below(10) {
        // value that does not decode
        0 => {
            let n = r.below(6);
            let mut v = r.bytes(n);
            if let Some(x) = v.first_mut() {
                *x = 0xff;
            }
            parse::enc_kv(key, &v)
        }
        1 => {
            let mut v = Val::encoded(fresh_id(), 4);
            let i = v.len() - 1;
            v[i] ^= 0x55;
            parse::enc_kv(key, &v)
        }
        2 => foreign_body(r),
        // trailing bytes after a good value
        3 => {
            let mut v = Val::encoded(fresh_id(), 2);
            let n = r.range(1, 4);
            v.extend(r.bytes(n));
            parse::enc_kv(key, &v)
        }
        _ => {
            let id = fresh_id();
            let pad = r.below(20) as u16;
            parse::enc_kv(key, &Val::encoded(id, pad))
        }
    }
}

fn record(r: &mut Rng, keys: &[&str], seq: u32) -> Vec<OElem> {
    let n = r.below(5);
    let mut b: Vec<Vec<u8>> = (0..n).map(|_| body(r, keys)).collect();
    if r.chance(1, 2) {
        // every key once
        b = keys
            .iter()
            .map(|k| parse::enc_kv(k, &Val::encoded(fresh_id(), r.below(9) as u16)))
            .collect();
        r.shuffle(&mut b);
    }
    parse::build(seq, &b)
}

fn damage(r: &mut Rng, v: &mut Vec<OElem>) {
    if v.is_empty() {
        return;
    }
    let i = r.below(v.len());
    match r.below(12) {
        0 => {
            v.remove(i);
        }
        1 => v[i] = OElem::Bad,
        2 => {
            let j = r.below(v.len());
            v.swap(i, j);
        }
        3 => {
            let e = v[i].clone();
            let j = r.below(v.len() + 1);
            v.insert(j, e);
        }
        4 => v.insert(i, OElem::Bad),
        5 => v.truncate(i),
        6 => {
            v.drain(..i);
        }
        7 => {
            let e = OElem::Data(foreign_body(r));
            v.insert(i, e);
        }
        8 => {
            let e = OElem::Start(1 + r.below(40) as u32);
            v.insert(i, e);
        }
        9 => {
            let e = OElem::End(1 + r.below(40) as u32, if r.chance(1, 2) { 0xffff_ffff } else { r.u64() as u32 });
            v.insert(i, e);
        }
        _ => match &mut v[i] {
            OElem::Start(s) => *s = if r.chance(1, 2) { *s ^ (1 << r.below(32)) } else { s.wrapping_add(1) }.max(1),
            OElem::End(s, c) => {
                if r.chance(1, 2) {
                    *s = s.wrapping_add(1).max(1)
                } else {
                    *c ^= 1 << r.below(32)
                }
            }
            OElem::Data(d) => {
                // never a canonical head of different length
                match r.below(4) {
                    0 => d.push(r.u64() as u8),
                    1 if d.len() > 2 => {
                        d.pop();
                    }
                    _ => {
                        let i = r.below(d.len());
                        let b = 1u8 << r.below(8);
                        if i > 0 || !(0x78..=0x7f).contains(&(d[0] ^ b)) {
                            d[i] ^= b;
                        }
                    }
                }
            }
            OElem::Bad => {}
        },
    }
}

pub fn sequence(r: &mut Rng, keys: &[&str]) -> Vec<OElem> {
    let base = *r.pick(&[1u32, 1, 1, 0xfe, 0xffff, 0x00ff_fff0, 0x7fff_fffe, 0xffff_ffc0, 0xffff_fffd, u32::MAX]);
    let mut out = vec![];
    let mut seq = base;
    for _ in 0..r.range(0, 6) {
        match r.below(4) {
            0 => seq = base.saturating_add(r.below(40) as u32),
            1 => seq = seq.saturating_sub(1 + r.below(3) as u32).max(1),
            _ => seq = seq.saturating_add(1 + r.below(3) as u32),
        }
        let mut rec = record(r, keys, seq);
        if r.chance(1, 3) {
            for _ in 0..r.range(1, 3) {
                damage(r, &mut rec);
            }
        }
        out.extend(rec);
        if r.chance(1, 6) {
            // glue two records together
            let n = r.below(3);
            let l = out.len();
            out.truncate(l.saturating_sub(n));
        }
    }
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            damage(r, &mut out);
        }
    }
    out
}

/// What each key must hydrate to: `None` = not specified, `Some(None)` = default.
fn expect(elems: &[OElem], keys: &[&str]) -> Option<Vec<Option<Option<u64>>>> {
    let recs = parse::records(elems);
    let Some(top) = recs.iter().map(|r| r.seq).max() else {
        return Some(vec![Some(None); keys.len()]);
    };
    let best: Vec<_> = recs.iter().filter(|r| r.seq == top).collect();
    if best.iter().any(|b| b.kv != best[0].kv) {
        return None;
    }
    Some(
        keys.iter()
            .map(|k| {
                let v: Vec<_> = best[0].kv.iter().filter(|x| x.0 == *k).collect();
                match v.len() {
                    0 => Some(None),
                    1 => Some(stored_id(&v[0].1)),
                    _ => None,
                }
            })
            .collect(),
    )
}

fn p03_on<const K: usize, S: Backend>(c: &mut Ctx, mut sto: S, keys: &[&'static str]) -> Verdict
where
    S::Error: std::fmt::Debug,
{
    let elems = sto.elems();
    let Some(want) = expect(&elems, keys) else {
        c.cov.count("ambiguous_skipped");
        return Ok(());
    };
    c.log(|| format!("{} K={K}: {elems:?}", S::name()));
    c.cov.count(S::name());
    let recs = parse::records(&elems);
    c.cov.count(match recs.len() {
        0 => "contents_without_intact_record",
        1 => "contents_with_one_intact_record",
        _ => "contents_with_several_intact_records",
    });
    if elems.iter().filter(|e| matches!(e, OElem::Start(_))).count() > recs.len() {
        c.cov.count("contents_with_damaged_records");
    }
    let mut b = Boot::<K>::new(keys);
    let mut buf = vec![0u8; S::MAX_ELEM_SIZE];
    let mut left: Vec<usize> = (0..keys.len()).collect();
    c.rng.shuffle(&mut left);
    let mut first = true;
    while !left.is_empty() {
        // hydrate the nodes in up to three batches
        let n = c.rng.range(1, left.len());
        let batch: Vec<usize> = left.drain(..n).collect();
        for i in &batch {
            if let Some(r) = b.begin_attach(*i, 3) {
                return Err(format!("attach of a fresh node ended before any read: {r:?}"));
            }
        }
        if !first && c.rng.chance(1, 3) {
            run_now(b.list.reset_cache());
        }
        if !first && c.rng.chance(1, 4) {
            // a collection in between must not change anything
            let r = run_now(b.list.process_garbage(&mut sto, &mut buf));
            c.log(|| format!("process_garbage -> {r:?}"));
            c.cov.count("collections_between");
        }
        first = false;
        let r = run_now(b.list.process_reads(&mut sto, &mut buf));
        c.log(|| format!("process_reads -> {r:?}"));
        if !matches!(r, Some(Ok(_))) {
            return Err(format!("process_reads on readable storage: {r:?}"));
        }
        for i in batch {
            match b.poll_attach(i) {
                Some(Ok(())) => {}
                x => return Err(format!("attach does not end after a successful read: {x:?}")),
            }
            let id = b.load(i).unwrap();
            let got = (id != b.slots[i].def_id).then_some(id);
            c.cov.evals += 1;
            let Some(w) = want[i] else {
                continue;
            };
            c.cov.count(if w.is_some() { "stored_values_compared" } else { "defaults_compared" });
            if got != w {
                return Err(format!(
                    "key {:?} hydrated {got:?}, the newest intact record says {w:?}; contents {elems:?}",
                    keys[i]
                ));
            }
        }
    }
    c.cov.seen(hash(&elems));
    let iter = c.iter;
    c.cov.sample(|| format!("iteration {iter}: {elems:?} -> {want:?}"));
    Ok(())
}

fn p03_nor<const K: usize, const R: usize, const W: usize, const E: usize, const P: usize, C: nor::MkCache>(
    c: &mut Ctx,
    items: &[Vec<u8>],
    keys: &[&'static str],
) -> Verdict {
    let mem = NorBack::<R, W, E, P, C>::new().core.borrow().mem.clone();
    let mem = nor::raw_push::<R, W, E>(mem, E, (P + 1) * E, items);
    p03_on::<K, _>(c, NorBack::<R, W, E, P, C>::from_mem(mem), keys)
}


pub fn p03(c: &mut Ctx) -> Verdict {
    let n = c.rng.range(1, 4);
    let max = if c.rng.chance(1, 4) { 256 } else { 64 };
    let keys = pick_keys(&mut c.rng, n, max);
    if c.rng.chance(1, 200) {
        // hundreds of elements, many keys
        let keys = if c.rng.chance(1, 2) { many_keys(c.rng.range(5, 60)) } else { keys };
        let many = *c.rng.pick(&[60usize, 300, 600, 1200]);
        let mut seq = crate::hist::prior_scaled(&mut c.rng, &keys, 3, many, 30, false, false);
        for _ in 0..c.rng.below(3) {
            damage(&mut c.rng, &mut seq);
        }
        c.cov.count("large_contents");
        return p03_on::<3, _>(c, ElemStore::<300>::with(seq), &keys);
    }
    let seq = sequence(&mut c.rng, &keys);
    if max > 64 || c.rng.chance(1, 2) {
        let s = ElemStore::<300>::with(seq);
        return match c.rng.below(30) {
            0 => p03_on::<8, _>(c, s, &keys),
            1 => p03_on::<9, _>(c, s, &keys),
            2 => p03_on::<17, _>(c, s, &keys),
            x if x < 12 => p03_on::<1, _>(c, s, &keys),
            x if x < 21 => p03_on::<2, _>(c, s, &keys),
            _ => p03_on::<4, _>(c, s, &keys),
        };
    }
    // the same as bytes in a NOR queue, with damage to the bytes
    let mut items: Vec<Vec<u8>> = seq.iter().map(nor::encode).collect();
    if !items.is_empty() && c.rng.chance(1, 2) {
        for _ in 0..c.rng.range(1, 3) {
            let i = c.rng.below(items.len());
            match c.rng.below(6) {
                // header byte: version and discriminant
                0 => items[i][0] ^= 1 << c.rng.below(8),
                1 => items[i].push(0),
                2 if items[i].len() > 1 => {
                    items[i].pop();
                }
                3 => {
                    let n = c.rng.range(1, 12);
                    let mut b = c.rng.bytes(n);
                    if b.len() > 1 && (0x78..=0x7f).contains(&b[1]) {
                        b[1] = 0;
                    }
                    items[i] = b;
                }
                // a zero sequence number
                4 if items[i].len() >= 5 && items[i][0] != 1 => items[i][1..5].fill(0),
                _ => {
                    let k = c.rng.below(items[i].len());
                    let b = 1u8 << c.rng.below(8);
                    if k != 1 || items[i][0] != 1 || !(0x78..=0x7f).contains(&(items[i][1] ^ b)) {
                        items[i][k] ^= b;
                    }
                }
            }
        }
    }
    // turning a Start or End into Data can yield a non-canonical key head: not specified
    for i in items.iter_mut() {
        if i[0] == 1 && i.len() > 1 && (0x78..=0x7f).contains(&i[1]) && canonical(&i[1..]).is_none() {
            i[1] = 0;
        }
    }
    match c.rng.below(4) {
        0 => p03_nor::<3, 1, 4, 512, 8, NoCache>(c, &items, &keys),
        1 => p03_nor::<2, 4, 8, 1024, 4, PageStateCache<4>>(c, &items, &keys),
        2 => p03_nor::<1, 1, 1, 256, 12, PagePointerCache<12>>(c, &items, &keys),
        _ => p03_nor::<3, 2, 16, 1024, 6, KeyPointerCache<6, u8, 4>>(c, &items, &keys),
    }
}
fn canonical(d: &[u8]) -> Option<()> {
    let (k, v) = parse::split_kv(d)?;
    (parse::enc_kv(&k, &v) == d).then_some(())
}

// ------------------------------------------------------------------ P16

/// Any call may fail, none may panic, park or take more steps than linear in the contents.
fn hostile<const K: usize, S: Backend>(c: &mut Ctx, sto: S, keys: &[&'static str], trusted: bool) -> Verdict
where
    S::Error: std::fmt::Debug,
{
    let seed = c.rng.u64();
    let mut sto = Mon::new(sto, seed);
    let max = S::MAX_ELEM_SIZE;
    let mut b = Boot::<K>::new(keys);
    let r = hostile_steps(c, &mut sto, &mut b, max, keys, trusted);
    if r.is_err() {
        b.poisoned = true;
    }
    r
}

fn hostile_steps<const K: usize, S: Backend>(
    c: &mut Ctx,
    sto: &mut Mon<S>,
    b: &mut Boot<K>,
    max: usize,
    keys: &[&'static str],
    trusted: bool,
) -> Verdict
where
    S::Error: std::fmt::Debug,
{
    let start: Vec<OElem> = sto.inner.elems();
    let st = sto.ctl.clone();
    c.log(|| format!("{} K={K} MAX={max} keys {keys:?} contents {start:?}", S::name()));
    c.cov.count(S::name());
    let mut small = false;
    let clear = expect(&start, keys).is_some();
    // mostly proper buffers in some histories, so that writes get through
    let sane = c.rng.chance(1, 2);
    if sane && c.rng.chance(2, 3) {
        let mut buf = vec![0u8; max];
        for i in 0..keys.len() {
            let pad = c.rng.below(12) as u16;
            b.begin_attach(i, pad);
        }
        let r = run_now(b.list.process_reads(sto, &mut buf));
        for i in 0..keys.len() {
            b.poll_attach(i);
        }
        let g = run_now(b.list.process_garbage(sto, &mut buf));
        c.log(|| format!("attach all, process_reads -> {r:?}, process_garbage -> {g:?}"));
        if r.is_none() || g.is_none() {
            return Err("process_reads or process_garbage waits although nothing else is going on".into());
        }
    }
    for _ in 0..c.rng.range(3, 14) {
        let i = c.rng.below(keys.len());
        let len = match c.rng.below(if sane { 30 } else { 8 }) {
            0 => 0,
            1 => c.rng.below(4),
            2 => c.rng.below(max.min(64) + 1),
            3 => max.saturating_sub(1 + c.rng.below(3)),
            4 => max + c.rng.range(1, 40),
            _ => max,
        }
        .min(70_000);
        let mut buf = vec![0xa5u8; len];
        let ops0 = st.borrow().opno;
        // elements present (the queue may hold more than it shows when the image is arbitrary)
        let n = sto.inner.elems().len() as u64 + 4;
        let what: String;
        match if sane && c.rng.chance(1, 3) { 2 + c.rng.below(5) } else { c.rng.below(9) } {
            0 | 1 => {
                if b.slots[i].h.is_none() && b.slots[i].pending.is_none() {
                    let r = b.begin_attach(i, c.rng.below(20) as u16);
                    what = format!("attach {i} -> {r:?}");
                } else if b.slots[i].pending.is_some() {
                    let r = b.poll_attach(i);
                    what = format!("poll {i} -> {r:?}");
                } else {
                    b.slots[i].h = None;
                    let r = b.detach(i);
                    what = format!("detach {i} -> {r:?}");
                }
            }
            2 | 3 => {
                let r = run_now(b.list.process_reads(sto, &mut buf));
                what = format!("process_reads buf {len} -> {r:?}");
                c.cov.count("reads_called");
                if r.is_none() {
                    return Err("process_reads waits although nothing else is going on".into());
                }
                if matches!(r, Some(Err(_))) {
                    c.cov.count("reads_refused");
                }
            }
            4 => {
                let r = run_now(b.list.process_garbage(sto, &mut buf));
                what = format!("process_garbage buf {len} -> {r:?}");
                c.cov.count("collections_called");
                if r.is_none() {
                    return Err("process_garbage waits although nothing else is going on".into());
                }
            }
            5 | 6 => {
                let want: Vec<(usize, u64)> = (0..keys.len()).filter_map(|i| Some((i, b.load(i)?))).collect();
                let r = run_now(b.list.process_writes(sto, &mut buf));
                what = format!("process_writes buf {len} -> {r:?}");
                c.cov.count("writes_called");
                match &r {
                    None => return Err("process_writes waits although nothing else is going on".into()),
                    Some(Ok(_)) if trusted && clear && !sto.medium_lost_data() => {
                        // whatever the buffer: success means stored
                        let e = sto.inner.elems();
                        let kv = parse::newest(&e).map(|r| r.kv).unwrap_or_default();
                        for (i, id) in want {
                            let got = kv.iter().find(|x| x.0 == keys[i]).and_then(|x| stored_id(&x.1));
                            c.cov.count("values_compared_after_write");
                            if got != Some(id) {
                                return Err(format!("process_writes with a buffer of {len} bytes reports success, but key {:?} is stored as {got:?} instead of {id}", keys[i]));
                            }
                        }
                    }
                    Some(Err(_)) => c.cov.count("writes_refused"),
                    _ => {}
                }
            }
            7 => {
                let pad = match c.rng.below(5) {
                    0 => 0,
                    1 => max.saturating_sub(c.rng.below(40)),
                    2 => max + c.rng.below(300),
                    3 => c.rng.below(60_000),
                    _ => c.rng.below(30),
                }
                .min(65_000) as u16;
                let id = fresh_id();
                let r = b.write(i, id, pad);
                what = format!("write {i} := {id} pad {pad} -> {r:?}");
                c.cov.count("payload_sizes_tried");
            }
            _ => {
                run_now(b.list.reset_cache());
                what = "reset_cache".into();
            }
        }
        c.log(|| what);
        small |= len < max;
        let used = st.borrow().opno - ops0;
        c.cov.evals += 1;
        c.cov.max("max_storage_operations_in_a_call", used);
        // a few passes over the contents, plus one append per node
        let limit = 8 * n + 8 * keys.len() as u64 + 40;
        if used > limit {
            return Err(format!("a call made {used} storage operations with {n} elements stored"));
        }
        for s in 0..keys.len() {
            // loads never fail
            let _ = b.load(s);
        }
    }
    if small {
        c.cov.count("histories_with_small_buffers");
    }
    c.cov.seen(hash(&(&start, &c.trace)));
    // with room and a proper buffer, values of legal size can be stored afterwards
    if trusted {
        let mut buf = vec![0u8; max];
        for i in 0..keys.len() {
            if b.slots[i].pending.is_none() && b.slots[i].h.is_none() {
                b.begin_attach(i, 1);
            }
        }
        let r = run_now(b.list.process_reads(sto, &mut buf));
        if !matches!(r, Some(Ok(_))) {
            return Err(format!("process_reads with a proper buffer fails after the history: {r:?}"));
        }
        for i in 0..keys.len() {
            if b.slots[i].pending.is_some() {
                let _ = b.poll_attach(i);
            }
            let fits = 1 + minicbor::len(keys[i]) + 12 <= max;
            if !fits {
                return Ok(());
            }
            let id = fresh_id();
            let r = b.write(i, id, 1);
            if r != Some(Ok(())) {
                return Err(format!("write through handle of key {i}: {r:?}"));
            }
        }
        let g = run_now(b.list.process_garbage(sto, &mut buf));
        let w = run_now(b.list.process_writes(sto, &mut buf));
        c.log(|| format!("final: gc {g:?} write {w:?}"));
        if matches!(w, Some(Err(cfg_noodle::error::LoadStoreError::FlashWrite(_)))) && S::name() == "backend_nor" {
            // the part may simply be too small for the large values of this history
            c.cov.count("final_writes_without_room");
            return Ok(());
        }
        if start.iter().any(|e| matches!(e, OElem::Start(n) | OElem::End(n, _) if *n > u32::MAX - 100)) {
            // the numbers may have run out
            c.cov.count("final_writes_near_the_last_number");
            return Ok(());
        }
        c.cov.count("final_writes");
        if !matches!(w, Some(Ok(_))) {
            return Err(format!("after the history values of legal size cannot be stored: gc {g:?}, write {w:?}"));
        }
    }
    Ok(())
}

fn random_items(r: &mut Rng, keys: &[&str]) -> Vec<Vec<u8>> {
    let mut items: Vec<Vec<u8>> = sequence(r, keys).iter().map(nor::encode).collect();
    for _ in 0..r.below(6) {
        let n = *r.pick(&[1usize, 1, 2, 5, 9, 20, 90]);
        let mut b = r.bytes(n);
        if r.chance(2, 3) {
            b[0] = r.below(4) as u8;
        }
        if b.len() > 1 && r.chance(1, 2) {
            // strings and arrays with absurd lengths
            b[1] = *r.pick(&[0x60, 0x61, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7f, 0x9b, 0xbf, 0xff, 0x00]);
            if b.len() > 6 && r.chance(1, 2) {
                b[2..6].fill(0xff);
            }
        }
        let i = r.below(items.len() + 1);
        items.insert(i, b);
    }
    items
}

fn hostile_nor<const K: usize, const R: usize, const W: usize, const E: usize, const P: usize, C: nor::MkCache>(
    c: &mut Ctx,
    keys: &[&'static str],
) -> Verdict {
    let items = random_items(&mut c.rng, keys);
    let mut mem = NorBack::<R, W, E, P, C>::new().core.borrow().mem.clone();
    let mut trusted = true;
    match c.rng.below(4) {
        0 | 1 => mem = nor::raw_push::<R, W, E>(mem, E, (P + 1) * E, &items),
        2 => {
            // damage below the element level
            mem = nor::raw_push::<R, W, E>(mem, E, (P + 1) * E, &items);
            trusted = false;
            for _ in 0..c.rng.range(1, 12) {
                let i = E + c.rng.below(P * E);
                match c.rng.below(3) {
                    0 => mem[i] ^= 1 << c.rng.below(8),
                    1 => mem[i] = c.rng.u64() as u8,
                    _ => {
                        let n = c.rng.below(40).min((P + 1) * E - i);
                        let v = *c.rng.pick(&[0u8, 0xff, 0xa5]);
                        mem[i..i + n].fill(v);
                    }
                }
            }
            c.cov.count("damaged_flash_images");
        }
        _ => {
            // any bytes at all
            trusted = false;
            let from = E + c.rng.below(P) * E;
            let n = (P + 1) * E - from;
            let b = c.rng.bytes(n);
            mem[from..from + n].copy_from_slice(&b);
            if c.rng.chance(1, 2) {
                mem[from] = 0;
            }
            c.cov.count("random_flash_images");
        }
    }
    // the queue under test is only trusted to work on what it wrote itself
    let s = NorBack::<R, W, E, P, C>::from_mem(mem);
    let core = s.core.clone();
    let r = hostile::<K, _>(c, s, keys, trusted);
    r?;
    let stray = core.borrow().stray.clone();
    if !stray.is_empty() {
        return Err(format!("accesses outside the assigned flash range: {stray:?}"));
    }
    let _ = NorSim::<R, W, E>::new(1);
    Ok(())
}

fn hostile_abs<const MAX: usize>(c: &mut Ctx, keys: &[&'static str]) -> Verdict {
    let mut seq: Vec<OElem> = random_items(&mut c.rng, keys).iter().map(|b| nor::decode(b)).collect();
    // what a storage of this size can contain
    for e in seq.iter_mut() {
        if let OElem::Data(d) = e
            && d.len() + 1 > MAX
        {
            *e = OElem::Bad;
        }
    }
    match c.rng.below(3) {
        0 => hostile::<1, _>(c, ElemStore::<MAX>::with(seq), keys, true),
        _ => hostile::<3, _>(c, ElemStore::<MAX>::with(seq), keys, true),
    }
}

fn p16(c: &mut Ctx) -> Verdict {
    let n = c.rng.range(1, 4);
    let max = if c.rng.chance(1, 4) { 256 } else { 40 };
    let keys = pick_keys(&mut c.rng, n, max);
    match c.rng.below(14) {
        0 => hostile_abs::<0>(c, &keys),
        1 => hostile_abs::<1>(c, &keys),
        2 => hostile_abs::<9>(c, &keys),
        3 => hostile_abs::<26>(c, &keys),
        4 | 5 => hostile_abs::<64>(c, &keys),
        6 | 7 => hostile_abs::<300>(c, &keys),
        8 => hostile_nor::<3, 1, 4, 512, 24, NoCache>(c, &keys),
        9 => hostile_nor::<2, 4, 8, 1024, 12, PageStateCache<12>>(c, &keys),
        10 => hostile_nor::<1, 1, 1, 256, 32, PagePointerCache<32>>(c, &keys),
        11 => hostile_nor::<3, 2, 16, 1024, 16, KeyPointerCache<16, u8, 4>>(c, &keys),
        12 => hostile_nor::<3, 1, 4, 128, 64, NoCache>(c, &keys),
        _ => hostile_nor::<3, 4, 4, 4096, 4, NoCache>(c, &keys),
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            prop: "P03",
            level: "exploration",
            rule: "hydrated value of every attached key compared with an independent parser of the same elements; distinct = element sequences",
            assumptions: &["contents where two different intact records carry the same highest number, a key occurs twice in a record, or a key is not in canonical CBOR are outside the property"],
            quick_iters: 1_000_000,
            quick_secs: 150,
            thorough_secs: 780,
            run: p03,
            must_see: &["stored_values_compared", "defaults_compared", "contents_with_damaged_records", "contents_with_several_intact_records", "backend_nor", "collections_between"],
        },
        Check {
            prop: "P16",
            level: "exploration",
            rule: "histories over arbitrary contents with buffers of any length and payloads of any size; panics, parked calls, calls with more storage operations than linear, and failure to store legal values afterwards are violations; distinct = (contents, history)",
            assumptions: &["flash images damaged below the element level are judged for panics, hangs and stray accesses only"],
            quick_iters: 500_000,
            quick_secs: 150,
            thorough_secs: 780,
            run: p16,
            must_see: &["reads_called", "writes_called", "collections_called", "writes_refused", "random_flash_images", "damaged_flash_images", "final_writes"],
        },
    ]
}
