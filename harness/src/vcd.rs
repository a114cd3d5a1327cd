//! VCDIFF conversion (C13).  Overlapping copies follow the reader library the converter is built on: the size of the
//! instruction counts the bytes between the address and the current position.
use crate::core::*;
use crate::dec::apply;
use crate::fmt::ensure;
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C13", case: c13, quick: 40_000, thorough: 1_500_000, hang_s: 60, rule: "VCDIFF patches built instruction by instruction: 1-4 windows with source segment, target segment or none; adds, runs, copies from the segment, from the window and overlapping their own output; lengths up to several hundred kB; non-trivial: at least one copy" }]
}
fn int(mut n: u64) -> Vec<u8> { let mut v = vec![(n & 127) as u8]; n >>= 7; while n > 0 { v.push((n & 127) as u8 | 128); n >>= 7 } v.reverse(); v }
fn len(r: &mut Rng) -> usize {
    match r.below(12) { 0..=6 => r.range(1, 30), 7 => *r.pick(&[61usize, 62, 63, 64, 124, 125, 128]), 8 => r.range(1, 500), 9 => r.range(100, 4000), 10 => if r.chance(1, 3) { *r.pick(&[65534usize, 65535, 65536, 65537, 131070, 131071]) } else { 5 }, _ => if r.chance(1, 12) { r.range(60000, 400_000) } else { 17 } }
}
fn here0(u: &[u8], sss: usize) -> bool { u.len() < sss + 500_000 }
/// windows that together have more than 4 GB of output
fn c13_far(c: &mut Ctx) -> Result<(), String> {
    let mut b = vec![0xD6, 0xC3, 0xC4, 0, 0];
    let src: Vec<u8> = (0..1000usize).map(|i| i as u8 ^ (i >> 8) as u8).collect();
    let window = |b: &mut Vec<u8>, seg: Option<(u8, u64, u64)>, tlen: u64, data: Vec<u8>, inst: Vec<u8>, addr: Vec<u8>| {
        match seg { Some((k, l, a)) => { b.push(k); b.extend(int(l)); b.extend(int(a)) } None => b.push(0) }
        let mut rest = int(tlen);
        rest.push(0);
        rest.extend(int(data.len() as u64)); rest.extend(int(inst.len() as u64)); rest.extend(int(addr.len() as u64));
        rest.extend(data); rest.extend(inst); rest.extend(addr);
        b.extend(int(rest.len() as u64));
        b.extend(rest);
    };
    let mut parts = vec![];
    let mut total = 0u64;
    for w in 0..5u64 { // a block of bytes, repeated
        let d: Vec<u8> = (0..65535u64).map(|i| (i * (2 * w + 3) >> 3) as u8).collect();
        let gen: u64 = 900_000_000 + c.rng.below(1000) as u64;
        let mut inst = vec![1]; inst.extend(int(65535));
        inst.push(19); inst.extend(int(65535 + gen));
        window(&mut b, None, 65535 + gen, d.clone(), inst, int(0));
        parts.push((total, d));
        total += 65535 + gen;
    }
    let at = |p: u64| -> u8 { let i = parts.partition_point(|x| x.0 <= p) - 1; parts[i].1[((p - parts[i].0) % 65535) as usize] };
    let mut end: Vec<u8> = vec![];
    let base = total;
    for _ in 0..c.rng.range(1, 4) {
        // from the output produced before, then from the window itself
        let n = c.rng.range(1, 300) as u64;
        let a = match c.rng.below(3) { 0 => base - n, 1 => (1u64 << 32) - c.rng.below(200) as u64, _ => c.rng.u64() % (base - n) };
        let x = c.rng.u8();
        let m = c.rng.range(1, n as usize) as u64;
        let mut inst = vec![2];
        inst.push(19); inst.extend(int(n));
        inst.push(19); inst.extend(int(m));
        let mut addr = int(0); addr.extend(int(n + 1));
        window(&mut b, Some((2, n, a)), 1 + n + m, vec![x], inst, addr);
        c.note(|| format!("window of {x}, {n} bytes from {a}, {m} of its own"));
        let mut u = vec![x];
        u.extend((0..n).map(|i| at(a + i)));
        let z = u[1..1 + m as usize].to_vec();
        u.extend(z);
        end.extend(u);
    }
    c.nontrivial = true;
    c.hash(&b[b.len() - 30..]);
    let mut q = vec![];
    smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&b), &mut q).map_err(|e| format!("conversion fails: {e}"))?;
    let (secs, _) = crate::refm::parse_patch(&q).ok_or("the converted patch is malformed")?;
    let ops: Vec<crate::refm::ROp> = secs.into_iter().flat_map(|x| x.1).collect();
    let y = crate::edge::Sym::new(&ops);
    ensure!(y.total() == base + end.len() as u64, "the VCDIFF patch describes {} bytes, the converted patch {}", base + end.len() as u64, y.total());
    let ps: Vec<u64> = (0..20_000).map(|_| c.rng.u64() % base).chain(base..y.total()).collect();
    for p in ps { let w = if p < base { at(p) } else { end[(p - base) as usize] }; let g = y.at(p); ensure!(g == Some(crate::edge::S::Lit(w)), "byte {p} is {g:?} instead of {w}") }
    let _ = src;
    Ok(())
}
fn c13(c: &mut Ctx) -> Result<(), String> {
    let n = match c.rng.below(12) { 0 => 0, 1 => 70000, 2 => 140000, _ => c.rng.below(2000) };
    let src: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(13).wrapping_add((i >> 8) as u8)).collect();
    let mut out: Vec<u8> = vec![];
    let mut b = vec![0xD6, 0xC3, 0xC4, 0, 0];
    if c.idx % 6000 == 7 { return c13_far(c) }
    // around the end of a full section: `win` is how full it is when pieces are as long as possible
    let cross = c.idx % 1500 == 4 || c.idx % 1500 == 5;
    let mut win = 0usize;
    let fill = |win: &mut usize, l: usize, piece: usize| { let mut l = l; while l > 0 { let z = l.min(piece); if *win + z > 16_777_215 { *win = 0 } *win += z; l -= z } };
    let limit = if c.idx % 1500 == 3 { 36_000_000 } else if cross { 18_500_000 } else { 2_000_000 };
    for w in 0..if cross { 2 } else if c.rng.chance(1, 300) { 0 } else { c.rng.range(1, 4) } {
        let kind = c.rng.below(3);
        let seg: Option<(usize, usize)> = match kind {
            1 if !src.is_empty() => { let a = c.rng.below(src.len()); Some((a, c.rng.range(1, src.len() - a))) }
            2 if !out.is_empty() => { let a = c.rng.below(out.len()); Some((a, c.rng.range(1, out.len() - a))) }
            _ => None,
        };
        let kind = if seg.is_none() { 0 } else { kind };
        let mut u: Vec<u8> = match (kind, seg) { (1, Some((a, l))) => src[a..a + l].to_vec(), (2, Some((a, l))) => out[a..a + l].to_vec(), _ => vec![] };
        let sss = u.len();
        let (mut data, mut inst, mut addr) = (vec![], vec![], vec![]);
        let base = out.len();
        let count = if c.rng.chance(1, 40) { 0 } else { c.rng.range(1, 12) };
        let count = if limit > 3_000_000 { 120 } else { count };
        for _ in 0..count {
            if out.len() + u.len() - sss > limit { break }
            let mut l = len(&mut c.rng);
            if limit > 3_000_000 && c.rng.chance(1, 2) { l = 300_000 }
            let mut kind_of = c.rng.below(6);
            if cross {
                let left = 16_777_215 - win;
                if left > 600_000 { kind_of = if here0(&u, sss) { 0 } else { 2 + c.rng.below(2) }; l = 500_000 }
                else if left > 140 { kind_of = 0; l = left - c.rng.below(60).min(left - 1) }
                else { l = if c.rng.chance(2, 3) { left + c.rng.below(4) } else { c.rng.range(1, 200) }.max(1) }
            }
            let here = u.len();
            let put = |r: &mut Rng, a: usize, l: usize, addr: &mut Vec<u8>, inst: &mut Vec<u8>| {
                if r.chance(1, 2) { inst.push(19); inst.extend(int(l as u64)); addr.extend(int(a as u64)) } else { inst.push(35); inst.extend(int(l as u64)); addr.extend(int((here - a) as u64)) }
            };
            match kind_of {
                0 => { fill(&mut win, l, 65535); let d = c.rng.bytes(l); if l <= 17 && c.rng.chance(1, 2) { inst.push(1 + l as u8) } else { inst.push(1); inst.extend(int(l as u64)) } data.extend(&d); u.extend(&d); let s = l; c.note(|| format!("w{w} add {s}")) }
                1 => { fill(&mut win, l, 62); let x = c.rng.u8(); inst.push(0); inst.extend(int(l as u64)); data.push(x); u.extend(std::iter::repeat(x).take(l)); c.note(|| format!("w{w} run {l}")) }
                2 if sss > 0 => { let l = l.min(sss); fill(&mut win, l, 65535); let a = c.rng.below(sss - l + 1); put(&mut c.rng, a, l, &mut addr, &mut inst); let z = u[a..a + l].to_vec(); u.extend(z); c.nontrivial = true; c.note(|| format!("w{w} copy segment {a}+{l}")) }
                3 if here > sss => { let l = l.min(here - sss); fill(&mut win, l, 65535); let a = sss + c.rng.below(here - sss - l + 1); put(&mut c.rng, a, l, &mut addr, &mut inst); let z = u[a..a + l].to_vec(); u.extend(z); c.nontrivial = true; c.note(|| format!("w{w} copy window {a}+{l}")) }
                _ if here > sss => { // overlapping: period p, l bytes generated
                    let p = (if c.rng.chance(1, 2) { c.rng.range(1, 5) } else { len(&mut c.rng) }).min(here - sss);
                    let a = here - p;
                    fill(&mut win, l, p.min(65535));
                    put(&mut c.rng, a, p + l, &mut addr, &mut inst);
                    for i in 0..l { let x = u[a + i]; u.push(x) }
                    c.nontrivial = true; c.note(|| format!("w{w} overlapping copy period {p} generating {l}")) }
                _ => { fill(&mut win, 1, 65535); inst.push(2); let x = c.rng.u8(); data.push(x); u.push(x) }
            }
        }
        if inst.is_empty() { inst.push(2); data.push(1); u.push(1) }
        out.extend(&u[sss..]);
        b.push(kind as u8);
        if let Some((a, l)) = seg { b.extend(int(l as u64)); b.extend(int(a as u64)) }
        let mut rest = int((out.len() - base) as u64);
        rest.push(0);
        rest.extend(int(data.len() as u64)); rest.extend(int(inst.len() as u64)); rest.extend(int(addr.len() as u64));
        rest.extend(data); rest.extend(inst); rest.extend(addr);
        b.extend(int(rest.len() as u64));
        b.extend(rest);
        c.note(|| format!("window {w}: segment {seg:?} kind {kind}"));
    }
    c.hash(&b);
    let mut q = vec![];
    smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&b), &mut q).map_err(|e| format!("conversion fails: {e}"))?;
    let g = apply(&q, Some(&src), 0).map_err(|e| format!("the converted patch can not be applied: {e}"))?;
    ensure!(g == out, "the VCDIFF patch describes {} bytes, the converted patch gives {}; first difference {:?}", out.len(), g.len(), g.iter().zip(&out).position(|(a, b)| a != b));
    // (vcdiff-reader does not cope with interrupted reads)
    crate::io::stress(c, 2, false, b.len() + q.len(), Some(&q), |d| {
        let mut o = crate::io::dev(vec![], &d[1]);
        smdiff_vcdiff::convert_vcdiff_to_smdiff(crate::io::dev(Cursor::new(&b), &d[0]), &mut o)?;
        Ok(o.get())
    }).map_err(|e| format!("converting: {e}"))?;
    let (_, n) = crate::refm::parse_patch(&q).ok_or("the converted patch is malformed")?;
    ensure!(n == q.len(), "bytes follow the converted patch");
    Ok(())
}
