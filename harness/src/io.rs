//! Streams that transfer little at a time, are interrupted, or fail once.  An operation on such streams gives the same result
//! or (where a call fails) an error; it never reports success with another result.
use crate::core::*;
use std::cell::Cell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

pub struct Plan { chunk: usize, intr: u64, fail: u64, calls: Cell<u64>, hit: Cell<bool> }
pub type Plans = Vec<Rc<Plan>>;
pub struct Dev<T> { inner: T, plan: Rc<Plan> }
pub fn dev<T>(inner: T, plan: &Rc<Plan>) -> Dev<T> { Dev { inner, plan: plan.clone() } }
impl<T> Dev<T> {
    pub fn get(self) -> T { self.inner }
    fn call(&self, interruptible: bool) -> Result<()> {
        let p = &self.plan;
        let k = p.calls.get();
        p.calls.set(k + 1);
        if k == p.fail { p.hit.set(true); return Err(Error::new(ErrorKind::Other, "injected")) }
        if interruptible && p.intr > 0 && k % p.intr == p.intr - 1 { return Err(Error::from(ErrorKind::Interrupted)) }
        Ok(())
    }
    fn part(&self, n: usize) -> usize { if self.plan.chunk == 0 { n } else { n.min(self.plan.chunk) } }
}
impl<T: Read> Read for Dev<T> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.call(true)?; let n = self.part(b.len()); self.inner.read(&mut b[..n]) } }
impl<T: Write> Write for Dev<T> {
    fn write(&mut self, b: &[u8]) -> Result<usize> { self.call(true)?; let n = self.part(b.len()); self.inner.write(&b[..n]) }
    fn flush(&mut self) -> Result<()> { self.inner.flush() }
}
impl<T: Seek> Seek for Dev<T> { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.call(false)?; self.inner.seek(p) } }

/// f on n streams whose sizes are about `size`; without them it gives `want` (None: an error)
pub fn stress(c: &mut Ctx, n: usize, intr: bool, size: usize, want: Option<&[u8]>, f: impl Fn(&Plans) -> Result<Vec<u8>>) -> std::result::Result<(), String> {
    if size > 3_000_000 || !c.rng.chance(1, 4) { return Ok(()) }
    let small = size < 20_000;
    let mk = |r: &mut Rng| -> (usize, u64) { (if small { *r.pick(&[0usize, 1, 2, 3, 7, 100]) } else { *r.pick(&[0usize, 1000, 4096, 65535]) }, if intr { *r.pick(&[0u64, 0, 2, 3, 7]) } else { 0 }) };
    let cfg: Vec<(usize, u64)> = (0..n).map(|_| mk(&mut c.rng)).collect();
    let plans = |fail: Option<(usize, u64)>| -> Plans { cfg.iter().enumerate().map(|(i, &(chunk, intr))| Rc::new(Plan { chunk, intr, fail: match fail { Some((d, k)) if d == i => k, _ => u64::MAX }, calls: Cell::new(0), hit: Cell::new(false) })).collect() };
    let p = plans(None);
    let g = f(&p);
    match (&g, want) {
        (Ok(g), Some(w)) => if g != w { return Err(format!("with streams that transfer {cfg:?} (bytes, interrupted every n calls) at a time the result is {} bytes instead of {}, first difference {:?}", g.len(), w.len(), g.iter().zip(w).position(|(a, b)| a != b))) },
        (Err(e), Some(_)) => return Err(format!("with streams that transfer {cfg:?} (bytes, interrupted every n calls) at a time it fails: {e}")),
        (Ok(g), None) => return Err(format!("with streams that transfer {cfg:?} (bytes, interrupted every n calls) at a time it succeeds with {} bytes", g.len())),
        (Err(_), None) => {}
    }
    let Some(w) = want else { return Ok(()) };
    for _ in 0..3 {
        let d = c.rng.below(n);
        let calls = p[d].calls.get();
        if calls == 0 { continue }
        let k = c.rng.below(calls as usize) as u64;
        let q = plans(Some((d, k)));
        if let Ok(g) = f(&q) {
            if q[d].hit.get() && g != w { return Err(format!("call {k} of stream {d} fails (streams {cfg:?}), yet success is reported with {} bytes instead of {}", g.len(), w.len())) }
        }
    }
    Ok(())
}
