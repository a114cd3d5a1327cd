//! Decoder: robustness (C05) and semantics (C06).
use crate::core::*;
use crate::fmt::ensure;
use crate::refm::{self, ROp::*, *};
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C05", case: c05, quick: 600_000, thorough: 3_000_000, hang_s: 30, rule: "valid uncompressed patches with bytes/fields altered, inserted, cut, spliced, extreme header fields, and random bytes; read by both readers and applied with and without a source; memory while reading bounded; non-trivial: every case" },
        Prop { id: "C06", case: c06, quick: 400_000, thorough: 2_000_000, hang_s: 30, rule: "random operation lists (valid, and with one reference just beyond the source / the output produced) split into sections at random, source at a random position, compared with a reference interpreter; non-trivial: at least one copy" },
    ]
}
pub fn apply(p: &[u8], src: Option<&[u8]>, at: u64) -> std::io::Result<Vec<u8>> {
    let mut sink = Cursor::new(Vec::new());
    let mut pc = Cursor::new(p);
    match src {
        Some(s) => { let mut s = Cursor::new(s); s.set_position(at); smdiff_decoder::apply_patch(&mut pc, Some(&mut s), &mut sink)? }
        None => smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut pc, None, &mut sink)?,
    }
    Ok(sink.into_inner())
}
/// the same on streams that transfer little, are interrupted, or fail once
pub fn tough_apply(c: &mut Ctx, p: &[u8], src: Option<&[u8]>, at: u64, want: Option<&[u8]>, plain: bool) -> Result<(), String> {
    crate::io::stress(c, 3, plain, p.len() + src.map_or(0, |s| s.len()) + want.map_or(0, |w| w.len()), want, |d| {
        let mut sink = crate::io::dev(Cursor::new(Vec::new()), &d[2]);
        let mut pc = crate::io::dev(Cursor::new(p), &d[0]);
        match src {
            Some(s) => { let mut s = Cursor::new(s); s.set_position(at); smdiff_decoder::apply_patch(&mut pc, Some(&mut crate::io::dev(s, &d[1])), &mut sink)? }
            None => smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut pc, None, &mut sink)?,
        }
        Ok(sink.get().into_inner())
    }).map_err(|e| format!("applying: {e}"))
}
fn c05(c: &mut Ctx) -> Result<(), String> {
    let sn = c.rng.below(300);
    let src = c.rng.bytes(sn);
    let (a, b2) = (c.rng.below(10), c.rng.below(100));
    let many = c.rng.chance(1, 4000);
    let mut o = match c.rng.below(4) { 0 => wild_ops(&mut c.rng, a.min(4)), _ => refm::ops(&mut c.rng, src.len(), 0, a, b2 == 0) };
    if many { let k = c.rng.range(65_530, 65_600); let mut m: Vec<ROp> = (0..k).map(|_| Run(1, 1)).collect(); m.append(&mut o); m.push(Run(2, 9)); o = m; }
    let secs = if many { vec![o.clone()] } else { split(&mut c.rng, &o) };
    let mut b = patch(&mut c.rng, &secs);
    match if many { 99 } else { c.rng.below(10) } {
        99 => {}
        0 => { let n = c.rng.below(60); b = c.rng.bytes(n) }
        1 => { let n = c.rng.below(60); b = (0..n).map(|_| c.rng.u8()).collect() }
        2 => { // extreme header
            let mut h = head_of(&o, c.rng.chance(1, 2), c.rng.chance(1, 2));
            match c.rng.below(3) { 0 => h.n = c.rng.interesting_u64(), 1 => { h.adds = c.rng.interesting_u64() }, _ => { h.size = c.rng.interesting_u64() } }
            if c.rng.chance(1, 3) { h.n = *c.rng.pick(&[u32::MAX as u64, 1 << 31, 1 << 28, 1 << 32]); }
            b = head_bytes(&h); b.extend(body_bytes(&o, h.seg)) }
        3 => { // overflowing totals
            let mut o2 = vec![0xC0 & 0x40]; o2.clear();
            o2.push(0x40); refm::uv(c.rng.below(4) as u64, &mut o2); refm::uv(u32::MAX as u64 - c.rng.below(3) as u64, &mut o2); refm::uv(c.rng.interesting_u64(), &mut o2); o2.extend(&b); b = o2 }
        _ => for _ in 0..c.rng.range(1, 4) {
            if b.is_empty() { break }
            let i = c.rng.below(b.len());
            match c.rng.below(5) { 0 => b[i] = c.rng.u8(), 1 => b[i] ^= 1 << c.rng.below(8), 2 => { b.remove(i); } 3 => { let x = *c.rng.pick(&[0u8, 0x80, 0xff, 0x7f, 0x40, 0xc0, 1]); b.insert(i, x) } _ => { let n = c.rng.range(1, 11); b.splice(i..i, vec![0xffu8; n]); } }
        }
    }
    if let Some(x) = b.first_mut() { *x &= !0x38 } // uncompressed
    c.nontrivial = true;
    c.hash(&b);
    c.note(|| format!("source {} patch {}", hex(&src), hex(&b)));
    // what an uncompressed reading may cost: the sections before the first one marked as compressed
    let (r, peak) = peak_of(|| { let mut n = 0; for x in smdiff_reader::SectionIterator::new(Cursor::new(&b)) { if x.is_err() { break } n += 1; } n });
    let limit = (64 << 20) + 70_000 * b.len() as i64;
    ensure!(peak <= limit, "reading {} bytes takes {peak} bytes of memory", b.len());
    let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&b));
    let mut k = 0;
    while let Some(x) = it.next_borrowed() { if x.is_err() { break } k += 1; }
    ensure!(k == r, "the two ways of iterating disagree: {r} {k} sections");
    // no compressed section may be reached: the other decompressors are out of scope here
    let mut p = P { b: &b, i: 0 };
    let mut plain = true;
    loop { match p.head() { None => break, Some(mut h) => { if h.algo != 0 { plain = false; break } let more = h.more; if h.n > b.len() as u64 || p.ops(&mut h).is_none() || !more { break } } } }
    if plain {
        let (r, peak) = peak_of(|| { let mut n = 0; for x in smdiff_decoder::reader::SectionIterator::new(Cursor::new(&b)) { if x.is_err() { break } n += 1; } n });
        ensure!(peak <= limit, "reading {} bytes takes {peak} bytes of memory (decoder reader)", b.len());
        let _ = apply(&b, Some(&src), 0);
        let _ = apply(&b, None, 0);
    }
    Ok(())
}
fn c06_far(c: &mut Ctx) -> Result<(), String> {
    let src: Vec<u8> = (0..70_000usize).map(|i| (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8)).collect();
    let mut o = crate::edge::far(4000);
    let t = crate::edge::tail(&mut c.rng);
    c.note(|| format!("{} bytes, then {}", crate::edge::FAR, show(&t)));
    o.extend(t);
    let bad = c.rng.chance(1, 3);
    let done = out_len(&o) as u64;
    let k = if c.rng.chance(1, 2) { 65_537 } else { 60_000 };
    if bad { o.push(O(done - 3, 4)) }
    let mut b = section(&o[..k], c.rng.chance(1, 2), true);
    b.extend(section(&o[k..], c.rng.chance(1, 2), false));
    c.nontrivial = true;
    c.hash(&b);
    let mut sink = crate::edge::Sparse::new();
    let r = smdiff_decoder::apply_patch(&mut Cursor::new(&b), Some(&mut Cursor::new(&src)), &mut sink);
    if bad { ensure!(r.is_err(), "a copy beyond the output produced so far (at {done}) succeeds"); return Ok(()) }
    r.map_err(|e| format!("applying a patch with more than 4 GB of output fails: {e}"))?;
    ensure!(sink.len == done, "{} bytes instead of {done}", sink.len);
    let y = crate::edge::Sym::new(&o);
    for p in (0..sink.lo.len() as u64).step_by(97).chain(crate::edge::HI..done) {
        let w = match y.at(p).unwrap() { crate::edge::S::Lit(x) => x, crate::edge::S::D(a) => src[a as usize] };
        let g = if p < crate::edge::HI { sink.lo[p as usize] } else { sink.hi[(p - crate::edge::HI) as usize] };
        ensure!(g == w, "byte {p} of {done} is {g} instead of {w}");
    }
    Ok(())
}
fn c06(c: &mut Ctx) -> Result<(), String> {
    if c.idx % 20_000 == 11 { return c06_far(c) }
    let sn = match c.rng.below(6) { 0 => 0, 1 => 1, 2 => 70000, _ => c.rng.below(600) };
    let src: Vec<u8> = (0..sn).map(|i| (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8)).collect();
    let big = c.rng.chance(1, 12);
    let n = if c.rng.chance(1, 10) { c.rng.range(50, 200) } else { c.rng.range(0, 14) };
    let mut o = refm::ops(&mut c.rng, src.len(), 0, n, big);
    if c.rng.chance(1, 3) { // one reference at or just beyond the border
        let at = c.rng.below(o.len() + 1);
        let done = out_len(&o[..at]);
        let l = c.rng.range(1, 70);
        let d = c.rng.range(0, 3) as i64 - 1;
        let x = match c.rng.below(5) {
            0 => D((sn as i64 - l as i64 + d).max(0) as u64, l as u16),
            1 => O((done as i64 - l as i64 + d).max(0) as u64, l as u16),
            2 => D(c.rng.interesting_u64(), l as u16),
            3 => O(c.rng.interesting_u64(), l as u16),
            _ => O(done as u64, l as u16),
        };
        o.insert(at, x);
    }
    c.nontrivial = o.iter().any(|x| matches!(x, D(..) | O(..)));
    let many = c.rng.chance(1, 4000);
    if many { let k = c.rng.range(65_530, 65_600); for i in 0..k { o.push(Run(i as u8, 1)) } o.push(O(c.rng.below(600) as u64, 65_535)); }
    let secs = if many { vec![o.clone()] } else { split(&mut c.rng, &o) };
    let b = patch(&mut c.rng, &secs);
    c.hash(&b);
    let no_src = c.rng.chance(1, 8);
    let pos = c.rng.below(sn + 2) as u64;
    c.note(|| format!("source {} bytes (given: {}) at {pos}; {} sections; {}", sn, !no_src, secs.len(), show(&o)));
    let s = if no_src { None } else { Some(&src[..]) };
    let want = refm::apply(&o, s);
    match (apply(&b, s, pos), want) {
        (Ok(g), Some(w)) => ensure!(g == w, "operations describe {} bytes, applying gives {} bytes, first difference at {:?}", w.len(), g.len(), g.iter().zip(&w).position(|(a, b)| a != b)),
        (Ok(g), None) => return Err(format!("an operation refers to bytes that do not exist, yet applying succeeds with {} bytes", g.len())),
        (Err(e), Some(w)) => return Err(format!("valid operations describe {} bytes but applying fails: {e}", w.len())),
        (Err(_), None) => {}
    }
    let want = refm::apply(&o, s);
    if let (Some(w), true) = (&want, c.rng.chance(1, 4)) { // a sink that holds something already is overwritten from its start
        let n = c.rng.below(w.len() + 60);
        let old = c.rng.bytes(n);
        let mut sink = Cursor::new(old.clone());
        let r = match s { Some(s) => smdiff_decoder::apply_patch(&mut Cursor::new(&b), Some(&mut Cursor::new(s)), &mut sink), None => smdiff_decoder::apply_patch::<_, Cursor<&[u8]>, _>(&mut Cursor::new(&b), None, &mut sink) };
        r.map_err(|e| format!("applying to a sink that holds {n} bytes fails: {e}"))?;
        let g = sink.into_inner();
        let mut e = w.clone();
        if n > e.len() { e.extend(&old[e.len()..]) }
        ensure!(g == e, "operations describe {} bytes, applying to a sink that holds {n} bytes gives {} bytes, first difference at {:?}", w.len(), g.len(), g.iter().zip(&e).position(|(a, b)| a != b));
    }
    tough_apply(c, &b, s, pos, want.as_deref(), true)?;
    // independent of the grouping
    if c.rng.chance(1, 3) {
        let s2 = split(&mut c.rng, &o);
        let b2 = patch(&mut c.rng, &s2);
        let (x, y) = (apply(&b, s, 0).ok(), apply(&b2, s, pos).ok());
        ensure!(x == y, "grouping into {} or {} sections gives different results", secs.len(), s2.len());
    }
    Ok(())
}
