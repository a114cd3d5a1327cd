//! Independent reference model of the format: writing, parsing and applying operations.
use crate::core::*;
use smdiff_common::{Copy, CopySrc, Format, Op, Run, SectionHeader};
pub type LOp = smdiff_reader::Op;

#[derive(Clone, Debug, PartialEq)]
pub enum ROp { Add(Vec<u8>), Run(u8, u8), D(u64, u16), O(u64, u16) }
use ROp::*;
impl ROp {
    pub fn len(&self) -> usize { match self { Add(b) => b.len(), Run(_, n) => *n as usize, D(_, n) | O(_, n) => *n as usize } }
    pub fn to(&self) -> LOp {
        match self {
            Add(b) => Op::Add(smdiff_reader::Add { bytes: b.clone() }),
            ROp::Run(b, n) => Op::Run(Run { byte: *b, len: *n }),
            D(a, n) => Op::Copy(Copy { src: CopySrc::Dict, addr: *a, len: *n }),
            O(a, n) => Op::Copy(Copy { src: CopySrc::Output, addr: *a, len: *n }),
        }
    }
    pub fn from(o: &LOp) -> ROp {
        match o {
            Op::Add(a) => Add(a.bytes.clone()),
            Op::Run(r) => ROp::Run(r.byte, r.len),
            Op::Copy(c) => if c.src == CopySrc::Dict { D(c.addr, c.len) } else { O(c.addr, c.len) },
        }
    }
}
pub fn show(ops: &[ROp]) -> String {
    let v: Vec<String> = ops.iter().take(60).map(|o| match o {
        Add(b) => if b.len() <= 24 { format!("Add({})", hex(b)) } else { format!("Add[{}]({}..)", b.len(), hex(&b[..8])) },
        o => format!("{:?}", o),
    }).collect();
    format!("{} ops: {}{}", ops.len(), v.join(" "), if ops.len() > 60 { " .." } else { "" })
}
pub fn out_len(ops: &[ROp]) -> usize { ops.iter().map(|o| o.len()).sum() }
pub fn apply(ops: &[ROp], src: Option<&[u8]>) -> Option<Vec<u8>> {
    let mut o: Vec<u8> = vec![];
    for op in ops {
        match op {
            Add(b) => o.extend_from_slice(b),
            ROp::Run(b, n) => o.extend(std::iter::repeat(*b).take(*n as usize)),
            D(a, n) => {
                let s = src?;
                if *n == 0 { continue }
                let e = a.checked_add(*n as u64)?;
                if e > s.len() as u64 { return None }
                o.extend_from_slice(&s[*a as usize..e as usize]);
            }
            O(a, n) => {
                let e = a.checked_add(*n as u64)?;
                if e > o.len() as u64 { return None }
                let t = o[*a as usize..e as usize].to_vec();
                o.extend(t);
            }
        }
    }
    Some(o)
}
pub fn uv(mut n: u64, o: &mut Vec<u8>) {
    loop { let b = (n & 127) as u8; n >>= 7; if n == 0 { o.push(b); return } o.push(b | 128) }
}
pub fn zz(n: i64) -> u64 { ((n as u64) << 1) ^ ((n >> 63) as u64) }
fn op_bytes(op: &ROp, ld: &mut u64, lo: &mut u64, inter: bool, o: &mut Vec<u8>) {
    let f = match op { D(..) => 0u8, O(..) => 0x40, Add(_) => 0x80, ROp::Run(..) => 0xC0 };
    let n = op.len();
    if (1..=62).contains(&n) { o.push(f | n as u8) }
    else if (63..=317).contains(&n) && n == 63 { o.push(f | 63); o.push(1) }
    else { o.push(f); o.extend((n as u16).to_le_bytes()) }
    match op {
        ROp::Run(b, _) => o.push(*b),
        Add(b) => if inter { o.extend(b) },
        D(a, _) => { uv(zz(a.wrapping_sub(*ld) as i64), o); *ld = *a }
        O(a, _) => { uv(zz(a.wrapping_sub(*lo) as i64), o); *lo = *a }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct RHead { pub algo: u8, pub seg: bool, pub more: bool, pub n: u64, pub adds: u64, pub size: u64 }
pub fn head_of(ops: &[ROp], seg: bool, more: bool) -> RHead {
    RHead { algo: 0, seg, more, n: ops.len() as u64, adds: ops.iter().map(|o| if let Add(b) = o { b.len() as u64 } else { 0 }).sum(), size: out_len(ops) as u64 }
}
pub fn head_bytes(h: &RHead) -> Vec<u8> {
    let mut o = vec![h.algo << 3 | if h.seg { 0x40 } else { 0 } | if h.more { 0x80 } else { 0 }];
    uv(h.n, &mut o);
    if h.seg { uv(h.adds, &mut o); uv(h.size.wrapping_sub(h.adds), &mut o) } else { uv(h.size, &mut o) }
    o
}
pub fn body_bytes(ops: &[ROp], seg: bool) -> Vec<u8> {
    let mut o = vec![];
    let (mut d, mut p) = (0, 0);
    for op in ops { op_bytes(op, &mut d, &mut p, !seg, &mut o) }
    if seg { for op in ops { if let Add(b) = op { o.extend(b) } } }
    o
}
pub fn section(ops: &[ROp], seg: bool, more: bool) -> Vec<u8> {
    let mut o = head_bytes(&head_of(ops, seg, more));
    o.extend(body_bytes(ops, seg));
    o
}
pub struct P<'a> { pub b: &'a [u8], pub i: usize }
impl<'a> P<'a> {
    fn u8(&mut self) -> Option<u8> { let r = *self.b.get(self.i)?; self.i += 1; Some(r) }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> { if self.b.len() - self.i < n { return None } let r = &self.b[self.i..self.i + n]; self.i += n; Some(r) }
    fn uv(&mut self) -> Option<u64> {
        let mut v: u128 = 0;
        for k in 0..10 {
            let b = self.u8()?;
            v |= ((b & 127) as u128) << (7 * k);
            if b < 128 { return u64::try_from(v).ok() }
        }
        None
    }
    pub fn head(&mut self) -> Option<RHead> {
        let c = self.u8()?;
        let seg = c & 0x40 != 0;
        let n = self.uv().filter(|x| *x <= u32::MAX as u64)?;
        let adds = if seg { self.uv().filter(|x| *x <= u32::MAX as u64)? } else { 0 };
        let s = self.uv().filter(|x| *x <= u32::MAX as u64)?;
        let size = s + adds;
        if size > u32::MAX as u64 { return None }
        Some(RHead { algo: c >> 3 & 7, seg, more: c & 0x80 != 0, n, adds, size })
    }
    pub fn ops(&mut self, h: &mut RHead) -> Option<Vec<ROp>> {
        let (mut d, mut o) = (0u64, 0u64);
        let mut ops = vec![];
        let mut size = 0u64;
        let mut adds = 0u64;
        for _ in 0..h.n {
            let c = self.u8()?;
            let mut n = (c & 63) as usize;
            if c >> 6 == 3 && (n == 0 || n == 63) { return None }
            if n == 63 { n = self.u8()? as usize + 62 }
            else if n == 0 { n = self.u8()? as usize; n += (self.u8()? as usize) << 8 }
            size += n as u64;
            let un = |z: u64| if z & 1 == 1 { !(z >> 1) } else { z >> 1 };
            match c >> 6 {
                0 => { d = d.wrapping_add(un(self.uv()?)); ops.push(D(d, n as u16)) }
                1 => { o = o.wrapping_add(un(self.uv()?)); ops.push(O(o, n as u16)) }
                2 => { adds += n as u64; if h.seg { ops.push(Add(vec![0; n])) } else { ops.push(Add(self.take(n)?.to_vec())) } }
                _ => ops.push(ROp::Run(self.u8()?, n as u8)),
            }
        }
        if size != h.size { return None }
        if h.seg {
            if adds != h.adds { return None }
            for op in ops.iter_mut() { if let Add(b) = op { *b = self.take(b.len())?.to_vec() } }
        } else { h.adds = adds }
        Some(ops)
    }
    pub fn section(&mut self) -> Option<(RHead, Vec<ROp>)> { let mut h = self.head()?; let o = self.ops(&mut h)?; Some((h, o)) }
}
/// all sections of an uncompressed patch, which must end with the last section
pub fn parse_patch(b: &[u8]) -> Option<(Vec<(RHead, Vec<ROp>)>, usize)> {
    let mut p = P { b, i: 0 };
    let mut v = vec![];
    loop {
        let (h, o) = p.section()?;
        let m = h.more;
        v.push((h, o));
        if !m { return Some((v, p.i)) }
    }
}
pub fn same_head(h: &SectionHeader, r: &RHead) -> bool {
    h.compression_algo == r.algo && (h.format == Format::Segregated) == r.seg && h.more_sections == r.more && h.num_operations as u64 == r.n && h.num_add_bytes as u64 == r.adds && h.output_size as u64 == r.size
}
pub fn to_head(r: &RHead) -> SectionHeader {
    SectionHeader { compression_algo: r.algo, format: if r.seg { Format::Segregated } else { Format::Interleaved }, more_sections: r.more, num_operations: r.n as u32, num_add_bytes: r.adds as u32, output_size: r.size as u32 }
}

// ---------------------------------------------------------------- generators
pub fn size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(10) {
        0..=4 => r.range(1, 20),
        5 => *r.pick(&[1usize, 2, 61, 62, 63, 64, 65, 124, 125]),
        6 => *r.pick(&[254usize, 255, 256, 257, 316, 317, 318, 319, 511, 512]),
        7 => r.range(1, 400),
        8 => if r.chance(1, 6) { *r.pick(&[65533usize, 65534, 65535, 32767, 32768]) } else { r.range(60, 70) },
        _ => if r.chance(1, 4) { r.range(1, 65535) } else { r.range(1, 130) },
    };
    n.clamp(1, max.max(1))
}
/// a valid operation list over a source of src_len bytes, appended to an output of `done` bytes
pub fn ops(r: &mut Rng, src_len: usize, done: usize, count: usize, big: bool) -> Vec<ROp> {
    let mut v: Vec<ROp> = vec![];
    let mut o = done;
    let style = r.below(4);
    for _ in 0..count {
        let mx = if big { 65535 } else { 300 };
        let op = match r.below(8) {
            0 | 1 => Add(gen_add(r, mx)),
            2 => { let b = if r.chance(1, 2) { 7 } else { r.u8() }; ROp::Run(b, if r.chance(1, 3) { *r.pick(&[1, 2, 61, 62]) } else { r.range(1, 62) as u8 }) }
            3 | 4 if src_len > 0 => {
                let n = size(r, mx.min(src_len));
                let a = match r.below(4) { 0 => src_len - n, 1 => 0, _ => r.below(src_len - n + 1) };
                D(a as u64, n as u16)
            }
            5 | 6 if o > 0 => {
                let n = size(r, mx.min(o));
                let a = match r.below(4) { 0 => o - n, 1 => 0, _ => r.below(o - n + 1) };
                O(a as u64, n as u16)
            }
            _ => if style == 0 { ROp::Run(3, 62) } else { Add(gen_add(r, mx.min(40))) },
        };
        o += op.len();
        v.push(op);
        if style == 1 && r.chance(1, 2) {
            // neighbours of the same kind
            let k = v.last().unwrap().clone();
            let k = match k { Add(_) => Add(gen_add(r, 20)), ROp::Run(b, _) => ROp::Run(b, r.range(1, 62) as u8), x => x };
            o += k.len();
            v.push(k);
        }
    }
    v
}
pub fn gen_add(r: &mut Rng, mx: usize) -> Vec<u8> { let n = size(r, mx); r.bytes(n) }
/// operations with arbitrary addresses (not applicable, but representable)
pub fn wild_ops(r: &mut Rng, count: usize) -> Vec<ROp> {
    (0..count).map(|_| { let n = size(r, 65535); match r.below(4) {
        0 => Add(r.bytes(n)),
        1 => ROp::Run(r.u8(), n.min(62) as u8),
        2 => D(r.interesting_u64(), n as u16),
        _ => O(r.interesting_u64(), n as u16),
    } }).collect()
}
pub fn split(r: &mut Rng, ops: &[ROp]) -> Vec<Vec<ROp>> {
    let mut v = vec![];
    let mut cur: Vec<ROp> = vec![];
    let p = r.range(1, 12);
    let mut sz = 0;
    for o in ops {
        if (!cur.is_empty() && r.chance(1, p)) || sz + o.len() > 16777215 { v.push(std::mem::take(&mut cur)); sz = 0; if r.chance(1, 8) { v.push(vec![]) } }
        sz += o.len();
        cur.push(o.clone());
    }
    v.push(cur);
    v
}
/// a section whose sizes use any of the encodings the format has for them, not only the one the writer chooses
fn loose(r: &mut Rng, ops: &[ROp], seg: bool, more: bool, o: &mut Vec<u8>) {
    o.extend(head_bytes(&head_of(ops, seg, more)));
    let (mut d, mut p) = (0, 0);
    for op in ops {
        let (n, at) = (op.len(), o.len());
        op_bytes(op, &mut d, &mut p, !seg, o);
        if matches!(op, ROp::Run(..)) { continue }
        let old = match o[at] & 63 { 0 => 3, 63 => 2, _ => 1 };
        let f = o[at] & 0xC0;
        let new = match r.below(3) {
            0 if (62..=317).contains(&n) => vec![f | 63, (n - 62) as u8],
            1 => vec![f, n as u8, (n >> 8) as u8],
            _ => continue,
        };
        o.splice(at..at + old, new);
    }
    if seg { for op in ops { if let Add(b) = op { o.extend(b) } } }
}
/// sections of the patch; layout per section
pub fn patch(r: &mut Rng, secs: &[Vec<ROp>]) -> Vec<u8> {
    let mode = r.below(3);
    let mut o = vec![];
    for (i, s) in secs.iter().enumerate() {
        let seg = match mode { 0 => false, 1 => true, _ => r.chance(1, 2) };
        if r.chance(1, 2) { o.extend(section(s, seg, i + 1 < secs.len())) } else { loose(r, s, seg, i + 1 < secs.len(), &mut o) }
    }
    o
}
/// (source, target) with related content
pub fn files(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>) {
    let len = |r: &mut Rng| match r.below(8) {
        0 => r.below(4), 1 => r.below(16), 2 => r.range(3, 40), 3 => r.range(0, 80),
        4 => r.below(max / 10 + 1), 5 => *r.pick(&[8usize, 9, 10, 13, 61, 62, 63, 64, 185, 186, 187, 371, 372, 373, 374, 434]), _ => r.below(max + 1) }.min(max);
    let chunk = |r: &mut Rng, n: usize| -> Vec<u8> {
        match r.below(6) {
            0 => vec![r.u8(); n],
            1 => { let p = r.range(1, 12); let b = r.bytes(p); (0..n).map(|i| b[i % p]).collect() }
            2 => (0..n).map(|_| r.below(2) as u8).collect(),
            3 => { let mut v = vec![]; while v.len() < n { let k = r.range(1, 80); let b = r.u8(); v.extend(std::iter::repeat(b).take(k.min(n - v.len()))) } v }
            _ => (0..n).map(|_| r.u8()).collect(),
        }
    };
    let n = len(r);
    let mut src = vec![];
    while src.len() < n { let k = r.range(1, n - src.len()); src.extend(chunk(r, k)) }
    if r.chance(1, 12) { src.clear() }
    let m = len(r);
    let mut t: Vec<u8> = vec![];
    match r.below(12) {
        0 => t = src.clone(),
        1 => { let x = chunk(r, m); t = src.clone(); t.extend(x) }
        2 => { t = chunk(r, m); t.extend(&src) }
        3 => { t = src.clone(); t.extend(src.clone()) }
        4 => t = chunk(r, m),
        _ => {
            while t.len() < m {
                let big = if r.chance(1, 3) { 30 } else { 4000 };
                let k = r.range(1, (m - t.len()).min(big));
                match r.below(6) {
                    0 => { let c = chunk(r, k); t.extend(c) }
                    1 if !t.is_empty() => { let a = r.below(t.len()); let e = (a + k).min(t.len()); let c = t[a..e].to_vec(); t.extend(c) }
                    2 => { let b = r.u8(); t.extend(std::iter::repeat(b).take(k)) }
                    3 => t.push(r.u8()),
                    _ if !src.is_empty() => { let a = r.below(src.len()); let e = (a + k).min(src.len()); t.extend_from_slice(&src[a..e]); }
                    _ => t.push(r.u8()),
                }
            }
            if r.chance(1, 3) && !src.is_empty() { // aligned edit of the source
                t = src.clone();
                for _ in 0..r.range(1, 8) { if t.is_empty() { break } let a = r.below(t.len()); match r.below(3) { 0 => t[a] ^= 1, 1 => { t.remove(a); } _ => { let k = r.range(1, 20); let c = chunk(r, k); t.splice(a..a, c); } } }
            }
        }
    }
    (src, t)
}
