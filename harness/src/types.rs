//! P17: values of many payload types through the whole pipeline, and across schema changes.
//! The reference for what a stored value means to a type is the codec itself (minicbor), applied
//! to the encoded value outside of the code under test.
use crate::{
    driver::{Check, Ctx, Verdict, hash},
    exec::{run_now, run_pinned},
    nor::NorBack,
    rng::Rng,
    sim::{SimMutex, Val, fresh_id},
    store::{Backend, ElemStore, Mon},
};
use cfg_noodle::{StorageList, StorageListNode, StorageListNodeHandle};
use minicbor::{CborLen, Decode, Encode, bytes::ByteVec};
use sequential_storage::cache::{NoCache, PagePointerCache};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    fmt::Debug,
    future::Future,
    pin::Pin,
};

const K: usize = 2;
type L = StorageList<SimMutex, K>;
type Hd<T> = StorageListNodeHandle<T, SimMutex, K>;

pub trait Payload:
    Clone + Debug + Send + Sync + 'static + Encode<()> + CborLen<()> + for<'a> Decode<'a, ()>
{
}
impl<T> Payload for T where
    T: Clone + Debug + Send + Sync + 'static + Encode<()> + CborLen<()> + for<'a> Decode<'a, ()>
{
}
fn enc<T: Payload>(t: &T) -> Vec<u8> {
    minicbor::to_vec(t).unwrap()
}

// ------------------------------------------------------------------ schema family

#[derive(Clone, Debug, Encode, Decode, CborLen)]
struct V1 {
    #[n(0)]
    a: u32,
    #[n(1)]
    b: String,
    #[n(2)]
    c: Option<i64>,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
struct V2Opt {
    #[n(0)]
    a: u32,
    #[n(1)]
    b: String,
    #[n(2)]
    c: Option<i64>,
    #[n(3)]
    d: Option<u16>,
    #[n(4)]
    e: Option<ByteVec>,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
struct V2Def {
    #[n(0)]
    a: u32,
    #[n(1)]
    b: String,
    #[n(2)]
    c: Option<i64>,
    #[n(3)]
    #[cbor(default)]
    d: u16,
    #[n(4)]
    #[cbor(default)]
    e: Vec<u32>,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
struct V2Less {
    #[n(0)]
    a: u32,
    #[n(2)]
    c: Option<i64>,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
struct V2First {
    #[n(1)]
    b: String,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
struct V2Req {
    #[n(0)]
    a: u32,
    #[n(1)]
    b: String,
    #[n(2)]
    c: Option<i64>,
    #[n(3)]
    d: bool,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
struct V2Type {
    #[n(0)]
    a: String,
    #[n(1)]
    b: u64,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
#[cbor(map)]
struct M1 {
    #[n(3)]
    a: i16,
    #[n(40)]
    b: Option<String>,
    #[n(300)]
    #[cbor(default)]
    c: u64,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
#[cbor(map)]
struct M2 {
    #[n(3)]
    a: i16,
    #[n(300)]
    #[cbor(default)]
    c: u64,
    #[n(301)]
    d: Option<V1>,
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
enum E1 {
    #[n(0)]
    Off,
    #[n(1)]
    Level(#[n(0)] u8),
    #[n(7)]
    Full {
        #[n(0)]
        name: String,
        #[n(1)]
        on: bool,
    },
}
#[derive(Clone, Debug, Encode, Decode, CborLen)]
enum E2 {
    #[n(0)]
    Off,
    #[n(1)]
    Level(#[n(0)] u8),
    #[n(9)]
    Extra(#[n(0)] i32),
}

fn text(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 3, 22, 23, 24, 25, 60, 90]);
    (0..n)
        .map(|_| *r.pick(&['a', '\0', '\u{7f}', '\u{e9}', '\u{1f980}', 'z', '"', '\u{ffff}']))
        .collect()
}
fn int(r: &mut Rng) -> u64 {
    let b = *r.pick(&[0u64, 1, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX, i64::MAX as u64]);
    if r.chance(1, 3) { r.u64() >> r.below(64) } else { b }
}
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(1, 3) { None } else { Some(f(r)) }
}
fn v1(r: &mut Rng) -> V1 {
    V1 { a: int(r) as u32, b: text(r), c: opt(r, |r| int(r) as i64) }
}
fn bytes(r: &mut Rng) -> ByteVec {
    let n = *r.pick(&[0usize, 1, 5, 23, 24, 100, 255, 256, 257]);
    ByteVec::from(r.bytes(n))
}

// ------------------------------------------------------------------ pipeline

thread_local! {
    static POOL: RefCell<Vec<&'static str>> = const { RefCell::new(vec![]) };
}
/// Keys of all interesting lengths (leaked once per thread).
pub fn key_pool() -> Vec<&'static str> {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_empty() {
            for (i, n) in [0usize, 1, 2, 10, 22, 23, 24, 25, 60, 120, 254, 255, 256, 257, 300].into_iter().enumerate() {
                for ch in ["k", "\u{1f980}"] {
                    let mut s = format!("{i}");
                    s.truncate(n);
                    while s.len() + ch.len() <= n {
                        s.push_str(ch);
                    }
                    if !p.contains(&s.as_str()) {
                        p.push(Box::leak(s.into_boxed_str()));
                    }
                }
            }
        }
        p.clone()
    })
}

/// One boot with one typed node and two companions; returns what the typed node hydrated.
struct Life<T: Payload> {
    list: &'static L,
    node: &'static StorageListNode<T>,
    comp: Vec<&'static StorageListNode<Val>>,
    h: Option<Hd<T>>,
    ch: Vec<Option<Hd<Val>>>,
    defs: Vec<u64>,
}
impl<T: Payload> Life<T> {
    fn boot<S: Backend>(sto: &mut Mon<S>, buf: &mut [u8], keys: &[&'static str], default: T, typed_last: bool) -> Result<Self, String>
    where
        S::Error: Debug,
    {
        let list: &'static L = Box::leak(Box::new(L::new()));
        let node: &'static StorageListNode<T> = Box::leak(Box::new(StorageListNode::new(keys[0])));
        let comp: Vec<&'static StorageListNode<Val>> =
            keys[1..].iter().map(|k| &*Box::leak(Box::new(StorageListNode::new(k)))).collect();
        type F<X> = Pin<Box<dyn Future<Output = Result<Hd<X>, cfg_noodle::error::Error>>>>;
        let mut tf: F<T> = Box::pin(node.attach_with_default(list, move || default));
        let mut defs = vec![];
        let mut cf: Vec<F<Val>> = vec![];
        for n in &comp {
            let id = fresh_id();
            defs.push(id);
            let n: &'static StorageListNode<Val> = n;
            cf.push(Box::pin(n.attach_with_default(list, move || Val::new(id, 2))));
        }
        if !typed_last && run_pinned(&mut tf, 100).is_some() {
            return Err("attach ended before a read".into());
        }
        for f in cf.iter_mut() {
            if run_pinned(f, 100).is_some() {
                return Err("attach ended before a read".into());
            }
        }
        if typed_last && run_pinned(&mut tf, 100).is_some() {
            return Err("attach ended before a read".into());
        }
        match run_now(list.process_reads(sto, buf)) {
            Some(Ok(_)) => {}
            x => return Err(format!("process_reads: {x:?}")),
        }
        let h = match run_pinned(&mut tf, 100) {
            Some(Ok(h)) => h,
            x => return Err(format!("attach after a good read: {x:?}")),
        };
        let mut ch = vec![];
        for f in cf.iter_mut() {
            match run_pinned(f, 100) {
                Some(Ok(h)) => ch.push(Some(h)),
                x => return Err(format!("attach after a good read: {x:?}")),
            }
        }
        Ok(Life { list, node, comp, h: Some(h), ch, defs })
    }
    fn commit<S: Backend>(&self, sto: &mut Mon<S>, buf: &mut [u8]) -> Result<(), String>
    where
        S::Error: Debug,
    {
        let g = run_now(self.list.process_garbage(sto, buf));
        if !matches!(g, Some(Ok(_))) {
            return Err(format!("process_garbage: {g:?}"));
        }
        match run_now(self.list.process_writes(sto, buf)) {
            Some(Ok(_)) => Ok(()),
            x => Err(format!("process_writes: {x:?}")),
        }
    }
    fn companions(&self) -> Vec<Option<u64>> {
        self.ch
            .iter()
            .zip(&self.defs)
            .map(|(h, d)| {
                let id = h.as_ref().unwrap().load().id;
                (id != *d).then_some(id)
            })
            .collect()
    }
    fn end(mut self) {
        self.h = None;
        self.ch.clear();
        let mut ok = run_now(self.node.detach(self.list)) == Some(Ok(()));
        for n in &self.comp {
            ok &= run_now(n.detach(self.list)) == Some(Ok(()));
        }
        if ok {
            unsafe {
                crate::sim::unleak(self.node);
                for n in &self.comp {
                    crate::sim::unleak(*n);
                }
                crate::sim::unleak(self.list);
            }
        }
    }
}

/// Store `vals` of type A one after the other, read back as A, then as B.
fn pair<A: Payload, B: Payload, S: Backend>(
    c: &mut Ctx,
    sto: S,
    what: &'static str,
    vals: Vec<A>,
    a_default: A,
    b_default: B,
) -> Verdict
where
    S::Error: Debug,
{
    let seed = c.rng.u64();
    let mut sto = Mon::new(sto, seed);
    let mut buf = vec![0u8; S::MAX_ELEM_SIZE];
    let mut keys = key_pool();
    c.rng.shuffle(&mut keys);
    keys.truncate(c.rng.range(1, 3));
    let e = |m: String| format!("{what}: {m}");
    let last_first = c.rng.chance(1, 2);
    c.log(|| format!("{what} on {}: keys {keys:?}, values {vals:?}", S::name()));
    c.cov.count(S::name());
    c.cov.count(what);

    // boot 1: write and acknowledge the values
    let mut l = Life::<A>::boot(&mut sto, &mut buf, &keys, a_default.clone(), last_first).map_err(e)?;
    let mut comp: Vec<Option<u64>> = vec![None; keys.len() - 1];
    if enc(&l.h.as_ref().unwrap().load()) != enc(&a_default) {
        return Err(e("the default is not what was supplied".into()));
    }
    let mut stored: Option<A> = None;
    for v in &vals {
        let r = run_now(l.h.as_mut().unwrap().write(v));
        if r != Some(Ok(())) {
            return Err(e(format!("write of {v:?}: {r:?}")));
        }
        if enc(&l.h.as_ref().unwrap().load()) != enc(v) {
            return Err(e(format!("load after write of {v:?} returns {:?}", l.h.as_ref().unwrap().load())));
        }
        for i in 0..comp.len() {
            if c.rng.chance(1, 2) || comp[i].is_none() {
                let id = fresh_id();
                let pad = c.rng.below(30) as u16;
                let r = run_now(l.ch[i].as_mut().unwrap().write(&Val::new(id, pad)));
                if r != Some(Ok(())) {
                    return Err(e(format!("companion write: {r:?}")));
                }
                comp[i] = Some(id);
            }
        }
        l.commit(&mut sto, &mut buf).map_err(e)?;
        stored = Some(v.clone());
        c.cov.count("values_acknowledged");
    }
    l.end();
    let Some(stored) = stored else { return Ok(()) };

    // boot 2: the same type
    let l = Life::<A>::boot(&mut sto, &mut buf, &keys, a_default, last_first).map_err(e)?;
    let got = l.h.as_ref().unwrap().load();
    c.cov.evals += 1;
    if enc(&got) != enc(&stored) {
        return Err(e(format!("stored {stored:?}, a later boot hydrates {got:?}")));
    }
    if l.companions() != comp {
        return Err(e(format!("companion values {:?}, stored {comp:?}", l.companions())));
    }
    l.end();

    // boot 3: another type at the same key
    let want = minicbor::decode::<B>(&enc(&stored)).ok();
    c.cov.count(if want.is_some() { "compatible_schema_changes" } else { "incompatible_schema_changes" });
    let want_b = want.clone().unwrap_or_else(|| b_default.clone());
    let l = Life::<B>::boot(&mut sto, &mut buf, &keys, b_default.clone(), !last_first).map_err(e)?;
    let got = l.h.as_ref().unwrap().load();
    c.cov.evals += 1;
    if enc(&got) != enc(&want_b) {
        return Err(e(format!("stored {stored:?}; as {} it must hydrate to {want_b:?}, got {got:?}", std::any::type_name::<B>())));
    }
    if l.companions() != comp {
        return Err(e(format!("a value of another type disturbed other keys: {:?}, stored {comp:?}", l.companions())));
    }
    // store it in the new form
    l.commit(&mut sto, &mut buf).map_err(e)?;
    l.end();

    // boot 4: still the same, also when it was the default (which counts as a change)
    let l = Life::<B>::boot(&mut sto, &mut buf, &keys, b_default, last_first).map_err(e)?;
    let got = l.h.as_ref().unwrap().load();
    c.cov.evals += 1;
    if enc(&got) != enc(&want_b) {
        return Err(e(format!("after a further boot {want_b:?} became {got:?}")));
    }
    if l.companions() != comp {
        return Err(e("companion values changed in a further boot".into()));
    }
    l.end();
    c.cov.seen(hash(&(what, enc(&stored), keys)));
    Ok(())
}

fn run<A: Payload, B: Payload>(c: &mut Ctx, what: &'static str, gen_: fn(&mut Rng) -> A, gen_b: fn(&mut Rng) -> B) -> Verdict {
    let n = c.rng.range(1, 4);
    let vals: Vec<A> = (0..n).map(|_| gen_(&mut c.rng)).collect();
    let da = gen_(&mut c.rng);
    let db = gen_b(&mut c.rng);
    let iter = c.iter;
    c.cov.sample(|| format!("iteration {iter}: {what}: {vals:?}, default of the second type {db:?}"));
    match c.rng.below(4) {
        0 => pair::<A, B, _>(c, NorBack::<1, 4, 4096, 8, NoCache>::new(), what, vals, da, db),
        1 => pair::<A, B, _>(c, NorBack::<4, 8, 2048, 10, PagePointerCache<10>>::new(), what, vals, da, db),
        _ => pair::<A, B, _>(c, ElemStore::<1500>::new(), what, vals, da, db),
    }
}

fn p17(c: &mut Ctx) -> Verdict {
    match c.rng.below(30) {
        0 => run(c, "unsigned", |r| int(r), |r| int(r) as u8),
        1 => run(c, "u8-i8", |r| int(r) as u8, |r| int(r) as i8),
        2 => run(c, "signed", |r| int(r) as i64, |r| int(r) as i16),
        3 => run(c, "i32-u64", |r| int(r) as i32, |r| int(r)),
        4 => run(c, "f32-f64", |r| f32::from_bits(r.u64() as u32), |r| f64::from_bits(r.u64())),
        5 => run(c, "f64-u32", |r| f64::from_bits(r.u64()), |r| int(r) as u32),
        6 => run(c, "bool-char", |r| r.chance(1, 2), |r| char::from_u32(r.u64() as u32 % 0xd800).unwrap()),
        7 => run(c, "char-u32", |r| char::from_u32(r.u64() as u32 % 0xd800).unwrap(), |r| int(r) as u32),
        8 => run(c, "string-bytes", text, bytes),
        9 => run(c, "bytes-string", bytes, text),
        10 => run(c, "vec-array", |r| (0..r.below(40)).map(|_| int(r)).collect::<Vec<u64>>(), |r| [int(r), int(r), int(r)]),
        11 => run(c, "array-tuple", |r| [int(r) as u8, 1, 2], |r| (int(r) as u16, 1u8, 2u8)),
        12 => run(c, "tuple-vec", |r| (int(r) as u16, text(r), r.chance(1, 2)), |r| vec![int(r)]),
        13 => run(c, "option-plain", |r| opt(r, int), |r| int(r)),
        14 => run(c, "plain-option", |r| int(r), |r| opt(r, int)),
        15 => run(c, "map-vec", |r| (0..r.below(9)).map(|_| (int(r), text(r))).collect::<BTreeMap<u64, String>>(), |r| vec![int(r)]),
        16 => run(c, "unit-u8", |_| (), |r| int(r) as u8),
        17 => run(c, "schema-add-optional", v1, |r| V2Opt { a: 1, b: text(r), c: Some(3), d: Some(4), e: None }),
        18 => run(c, "schema-add-defaulted", v1, |r| V2Def { a: 1, b: text(r), c: Some(3), d: 77, e: vec![1, 2] }),
        19 => run(c, "schema-remove-middle", v1, |_| V2Less { a: 9, c: None }),
        20 => run(c, "schema-remove-first", v1, |r| V2First { b: text(r) }),
        21 => run(c, "schema-add-required", v1, |r| V2Req { a: 5, b: text(r), c: None, d: true }),
        22 => run(c, "schema-change-type", v1, |r| V2Type { a: text(r), b: int(r) }),
        23 => run(c, "schema-go-back", |r| V2Opt { a: int(r) as u32, b: text(r), c: opt(r, |r| int(r) as i64), d: opt(r, |r| int(r) as u16), e: opt(r, bytes) }, v1),
        24 => run(c, "schema-less-to-more", |r| V2Less { a: int(r) as u32, c: opt(r, |r| int(r) as i64) }, v1),
        25 => run(
            c,
            "map-schema",
            |r| M1 { a: int(r) as i16, b: opt(r, text), c: int(r) },
            |r| M2 { a: 4, c: int(r), d: opt(r, v1) },
        ),
        26 => run(
            c,
            "map-schema-back",
            |r| M2 { a: int(r) as i16, c: int(r), d: opt(r, v1) },
            |r| M1 { a: 3, b: opt(r, text), c: int(r) },
        ),
        27 => run(
            c,
            "enum-schema",
            |r| match r.below(3) {
                0 => E1::Off,
                1 => E1::Level(int(r) as u8),
                _ => E1::Full { name: text(r), on: r.chance(1, 2) },
            },
            |r| if r.chance(1, 2) { E2::Extra(int(r) as i32) } else { E2::Level(3) },
        ),
        28 => run(c, "nested", |r| (v1(r), opt(r, v1), vec![v1(r)]), |r| (v1(r), 5u8)),
        _ => run(c, "bool-result", |r| r.chance(1, 2), |r| if r.chance(1, 2) { Ok::<u8, String>(3) } else { Err("x".into()) }),
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        prop: "P17",
        level: "exploration",
        rule: "values of 30 type pairs acknowledged on abstract and NOR storage, hydrated by the same type (must be equal) and by another type (must equal what the codec yields for the bytes, else the default), with companion keys that must not change; distinct = (pair, encoded value, keys)",
        assumptions: &["minicbor itself is the reference for what encoded bytes mean to a type"],
        quick_iters: 200_000,
        quick_secs: 150,
        thorough_secs: 780,
        run: p17,
        must_see: &["values_acknowledged", "compatible_schema_changes", "incompatible_schema_changes", "schema-add-optional", "schema-add-defaulted", "schema-remove-middle", "backend_nor"],
    }]
}
