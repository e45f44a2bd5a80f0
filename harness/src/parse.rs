//! Independent reading of an element sequence: which records are intact.
//! Written from the documented format, not from the implementation.
use crate::store::OElem;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub seq: u32,
    pub first: usize,
    pub last: usize,
    /// key -> raw value bytes, in order of appearance
    pub kv: Vec<(String, Vec<u8>)>,
    /// number of data elements that could not be split into key and value
    pub undecodable: usize,
}

/// Bitwise CRC-32/CKSUM (POSIX cksum polynomial, no reflection, no length), independent of the
/// crc crate.
pub struct Cksum(u32);
impl Cksum {
    pub fn new() -> Self {
        Cksum(0)
    }
    pub fn update(&mut self, d: &[u8]) {
        for b in d {
            self.0 ^= (*b as u32) << 24;
            for _ in 0..8 {
                self.0 = if self.0 & 0x8000_0000 != 0 {
                    (self.0 << 1) ^ 0x04C1_1DB7
                } else {
                    self.0 << 1
                };
            }
        }
    }
    pub fn finish(self) -> u32 {
        !self.0
    }
}

/// Split a data element body into (key, value)
pub fn split_kv(d: &[u8]) -> Option<(String, Vec<u8>)> {
    let h = *d.first()?;
    if h >> 5 != 3 {
        return None;
    }
    let (len, off): (usize, usize) = match h & 0x1f {
        n @ 0..=23 => (n as usize, 1),
        24 => (*d.get(1)? as usize, 2),
        25 => (u16::from_be_bytes([*d.get(1)?, *d.get(2)?]) as usize, 3),
        26 => (
            u32::from_be_bytes([*d.get(1)?, *d.get(2)?, *d.get(3)?, *d.get(4)?]) as usize,
            5,
        ),
        _ => return None,
    };
    let k = d.get(off..off.checked_add(len)?)?;
    let k = std::str::from_utf8(k).ok()?.to_string();
    Some((k, d[off + len..].to_vec()))
}

/// All intact records in order of position.
pub fn records(elems: &[OElem]) -> Vec<Rec> {
    let mut out = vec![];
    let mut i = 0;
    while i < elems.len() {
        if let OElem::Start(seq) = elems[i] {
            let mut j = i + 1;
            let mut crc = Cksum::new();
            let mut kv = vec![];
            let mut und = 0;
            while let Some(OElem::Data(d)) = elems.get(j) {
                crc.update(d);
                match split_kv(d) {
                    Some(x) => kv.push(x),
                    None => und += 1,
                }
                j += 1;
            }
            if let Some(OElem::End(s, c)) = elems.get(j) {
                if *s == seq && *c == crc.finish() && seq != 0 {
                    out.push(Rec {
                        seq,
                        first: i,
                        last: j,
                        kv,
                        undecodable: und,
                    });
                }
            }
        }
        i += 1;
    }
    out
}

pub fn newest(elems: &[OElem]) -> Option<Rec> {
    records(elems).into_iter().max_by_key(|r| r.seq)
}

/// The `k` newest intact records, newest first.
pub fn top_k(elems: &[OElem], k: usize) -> Vec<Rec> {
    let mut r = records(elems);
    r.sort_by_key(|x| std::cmp::Reverse(x.seq));
    r.truncate(k);
    r
}

/// Elements that belong to the `k` newest intact records, in storage order.
pub fn kept_elems(elems: &[OElem], k: usize) -> Vec<OElem> {
    let t = top_k(elems, k);
    elems
        .iter()
        .enumerate()
        .filter(|(i, _)| t.iter().any(|r| *i >= r.first && *i <= r.last))
        .map(|(_, e)| e.clone())
        .collect()
}

/// Encode a data element body
pub fn enc_kv(key: &str, val: &[u8]) -> Vec<u8> {
    let mut v = minicbor::to_vec(key).unwrap();
    v.extend_from_slice(val);
    v
}

/// Build an intact record
pub fn build(seq: u32, bodies: &[Vec<u8>]) -> Vec<OElem> {
    let mut c = Cksum::new();
    let mut v = vec![OElem::Start(seq)];
    for b in bodies {
        c.update(b);
        v.push(OElem::Data(b.clone()));
    }
    v.push(OElem::End(seq, c.finish()));
    v
}
