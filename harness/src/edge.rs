//! Large cases: positions beyond 2^32, sums that wrap around, long lists of operations.
use crate::core::*;
use crate::fmt::ensure;
use crate::refm::{self, ROp::*, *};

/// 2^32 - 1 bytes of output in few bytes of patch: 65537 copies of 65535 bytes
pub const FAR: u64 = 65537 * 65535;
pub fn far(n_addr: u64) -> Vec<ROp> { (0..65537u64).map(|i| D(i * 7 % n_addr, 65535)).collect() }
/// operations that read and write around the position 2^32
pub fn tail(r: &mut Rng) -> Vec<ROp> {
    let mut o = vec![];
    let mut done = FAR;
    for _ in 0..r.range(1, 8) {
        let x = match r.below(6) {
            0 => { let n = r.range(1, 70); Add(r.bytes(n)) }
            1 | 2 => Run(r.u8(), r.range(1, 62) as u8),
            3 => D(r.below(3000) as u64, r.range(1, 300) as u16),
            _ => { let n = r.range(1, 90) as u64; let hi = done - n; O(if r.chance(1, 4) { r.below(1000) as u64 } else { hi - r.below(200) as u64 }, n as u16) }
        };
        done += x.len() as u64;
        o.push(x);
    }
    o
}
/// what operations generate at a position: a literal or a byte of the source
#[derive(PartialEq, Clone, Debug)]
pub enum S { Lit(u8), D(u64) }
pub struct Sym<'a> { ops: &'a [ROp], ends: Vec<u64> }
impl<'a> Sym<'a> {
    pub fn new(ops: &'a [ROp]) -> Self { let mut e = 0; Sym { ops, ends: ops.iter().map(|o| { e += o.len() as u64; e }).collect() } }
    pub fn total(&self) -> u64 { self.ends.last().copied().unwrap_or(0) }
    pub fn at(&self, mut p: u64) -> Option<S> {
        loop {
            let i = self.ends.partition_point(|e| *e <= p);
            let o = self.ops.get(i)?;
            let start = self.ends[i] - o.len() as u64;
            let k = p - start;
            match o {
                Add(b) => return Some(S::Lit(b[k as usize])),
                ROp::Run(b, _) => return Some(S::Lit(*b)),
                D(a, _) => return Some(S::D(a + k)),
                O(a, _) => { if a + k >= start { return None } p = a + k }
            }
        }
    }
}
/// both describe the same output, looked at around the borders of operations and at random positions
pub fn same(r: &mut Rng, want: &[ROp], got: &[ROp]) -> Result<(), String> {
    let (w, g) = (Sym::new(want), Sym::new(got));
    ensure!(w.total() == g.total(), "{} bytes are generated instead of {}", g.total(), w.total());
    let t = w.total();
    let mut ps: Vec<u64> = (0..3000).map(|_| r.u64() % t.max(1)).collect();
    ps.extend((0..3000.min(t)).map(|i| t - 1 - i));
    ps.extend((0..3000.min(t)).map(|i| i));
    for _ in 0..1500 { let b = *r.pick(&w.ends); ps.extend([b.saturating_sub(1), b]) }
    for p in ps { if p < t { let (a, b) = (w.at(p), g.at(p)); ensure!(a == b, "byte {p} is {b:?} instead of {a:?}") } }
    Ok(())
}
/// a sink that keeps the bytes near its start and near 2^32
pub struct Sparse { pub pos: u64, pub len: u64, pub lo: Vec<u8>, pub hi: Vec<u8> }
pub const HI: u64 = (1 << 32) - 200_000;
impl Sparse {
    pub fn new() -> Self { Sparse { pos: 0, len: 0, lo: vec![0; 200_000], hi: vec![0; 400_000] } }
    fn part(&mut self, n: usize) -> Option<&mut [u8]> {
        if self.pos + n as u64 <= self.lo.len() as u64 { let p = self.pos as usize; return Some(&mut self.lo[p..p + n]) }
        if self.pos >= HI && self.pos + n as u64 <= HI + self.hi.len() as u64 { let p = (self.pos - HI) as usize; return Some(&mut self.hi[p..p + n]) }
        None
    }
}
impl std::io::Write for Sparse {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let Some(s) = self.part(b.len()) { s.copy_from_slice(b) } else { for (base, v) in [(0, &mut self.lo), (HI, &mut self.hi)] { let (a, e) = (self.pos.max(base), (self.pos + b.len() as u64).min(base + v.len() as u64)); if a < e { v[(a - base) as usize..(e - base) as usize].copy_from_slice(&b[(a - self.pos) as usize..(e - self.pos) as usize]) } } }
        self.pos += b.len() as u64;
        self.len = self.len.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl std::io::Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.len.saturating_sub(self.pos) as usize);
        match self.part(n) { Some(s) => b[..n].copy_from_slice(s), None => b[..n].fill(0xEE) }
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Sparse {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        self.pos = match p { Start(x) => x, End(x) => (self.len as i64 + x) as u64, Current(x) => (self.pos as i64 + x) as u64 };
        Ok(self.pos)
    }
}
