//! Merger, transcoder and extraction: C08, C09, C10, C11.
use crate::core::*;
use crate::dec::apply;
use crate::enc;
use crate::fmt::ensure;
use crate::refm::{self, ROp::*, *};
use smdiff_merger::*;
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", case: c08, quick: 120_000, thorough: 2_000_000, hang_s: 120, rule: "patches from the encoder, the transcoder and the merger for random inputs and section sizes (including 0 and beyond the limits, outputs up to 18 MB), parsed by an independent parser; non-trivial: more than one operation" },
        Prop { id: "C09", case: c09, quick: 200_000, thorough: 1_500_000, hang_s: 60, rule: "chains of 2-6 random valid patches (adds, runs, copies from source and output, clipped in every way), merged back to front and applied, against applying one after another; non-trivial: a dictionary copy in a later patch" },
        Prop { id: "C10", case: c10, quick: 100_000, thorough: 1_000_000, hang_s: 60, rule: "random patches: extracted positions, statistics, lookup of all offsets, slices of all/random ranges compared symbolically; non-trivial: at least three operations" },
        Prop { id: "C11", case: c11, quick: 100_000, thorough: 1_500_000, hang_s: 60, rule: "random valid patches with neighbouring runs/adds of the same kind, long runs, big adds, transcoded to every layout, section size and compression, applied and compared; non-trivial: neighbouring operations that can be joined" },
    ]
}
fn seg_size(r: &mut Rng) -> usize { *r.pick(&[0usize, 1, 100, 65534, 65535, 65536, 70000, 131070, 200000, 16777215, 16777216, usize::MAX]) }
fn fmt_of(r: &mut Rng) -> smdiff_common::Format { if r.chance(1, 2) { smdiff_common::Format::Interleaved } else { smdiff_common::Format::Segregated } }

fn check_limits(p: &[u8], src_len: u64, want: usize, out_size: u64, seg: bool) -> Result<usize, String> {
    let (secs, n) = parse_patch(p).ok_or("the patch is malformed")?;
    ensure!(n == p.len(), "{} bytes follow the last section", p.len() - n);
    let max = (want.clamp(65535, 16777215)) as u64;
    let mut done = 0u64;
    let mut k = 0;
    for (i, (h, o)) in secs.iter().enumerate() {
        ensure!(h.more == (i + 1 < secs.len()), "continuation flag of section {i} of {}", secs.len());
        ensure!(h.size <= max, "section {i} generates {} bytes, the limit is {max}", h.size);
        ensure!(h.seg == seg, "section {i} has the wrong layout");
        ensure!(*h == head_of(o, h.seg, h.more), "header {h:?} of section {i} does not state the real counts");
        for x in o {
            ensure!(x.len() > 0, "empty operation {x:?} in section {i}");
            match x {
                Run(_, n) => ensure!(*n <= 62, "run of {n}"),
                D(a, n) => ensure!(a.checked_add(*n as u64).map_or(false, |e| e <= src_len), "dictionary copy {x:?} outside the source of {src_len} bytes"),
                O(a, n) => ensure!(a.checked_add(*n as u64).map_or(false, |e| e <= done), "output copy {x:?} beyond the {done} bytes produced so far"),
                Add(b) => ensure!(b.len() <= 65535, "add of {}", b.len()),
            }
            done += x.len() as u64;
            k += 1;
        }
    }
    ensure!(done == out_size, "the patch generates {done} bytes instead of {out_size}");
    Ok(k)
}
fn c08(c: &mut Ctx) -> Result<(), String> {
    match c.idx % 3 {
        0 => {
            c.idx /= 3;
            let (s, t, mut cfg, none) = enc::input(c);
            cfg.sec_comp = None;
            c.hash(&s); c.hash(&t);
            let src = if none { None } else { Some(&s[..]) };
            c.note(|| enc::describe(src, &t, &cfg));
            let p = enc::encode(src, &t, &cfg).map_err(|e| format!("encoding fails: {e}"))?;
            let k = check_limits(&p, s.len() as u64, cfg.output_segment_size, t.len() as u64, cfg.format == smdiff_common::Format::Segregated)?;
            c.nontrivial = k > 1;
        }
        w => {
            let big = c.rng.chance(1, 10);
            let n = if c.rng.chance(1, 100) { c.rng.range(300, 600) } else { c.rng.range(0, 30) };
            let sl = if big { 200_000 } else { 800 };
            let mut o = refm::ops(&mut c.rng, sl, 0, n, big);
            if c.rng.chance(1, 200) { o = vec![Add(vec![3; 65535])]; for i in 0..280 { o.push(O(i, 65535)) } }
            let far = c.idx % 3000 == 31 || c.idx % 3000 == 32;
            let sl = if far { 70_000 } else { sl };
            if far { o = crate::edge::far(4000); o.extend(crate::edge::tail(&mut c.rng)) }
            if far || c.rng.chance(1, 5) { let k = c.rng.range(2, 60); let at = c.rng.below(o.len() + 1); let at = if far { o.len() } else { at }; o.truncate(at); o.extend((0..k).map(|_| Run(1, 62))) }
            let out = out_len(&o);
            let secs = split(&mut c.rng, &o);
            let p = patch(&mut c.rng, &secs);
            if !far { c.hash(&p) }
            c.nontrivial = o.len() > 1;
            let f = fmt_of(&mut c.rng);
            let sz = seg_size(&mut c.rng);
            c.note(|| format!("source {sl} bytes; {}; layout {f:?} section size {sz}", show(&o)));
            let mut q = vec![];
            if w == 1 {
                transcoder::transcode(&mut Cursor::new(&p), &mut q, f, None, sz).map_err(|e| format!("transcoding fails: {e}"))?;
                check_limits(&q, sl as u64, sz, out as u64, f == smdiff_common::Format::Segregated)?;
            } else {
                let s = match Merger::new(Cursor::new(&p)).map_err(|e| format!("Merger::new: {e}"))? { Ok(m) => m.finish(), Err(s) => s };
                let ws = if c.rng.chance(1, 4) { None } else { Some(sz) };
                s.write(&mut q, ws, Some(f), None).map_err(|e| format!("writing the summary: {e}"))?;
                check_limits(&q, sl as u64, ws.unwrap_or(usize::MAX), out as u64, f == smdiff_common::Format::Segregated)?;
            }
        }
    }
    Ok(())
}
fn summary(m: Result<Merger, SummaryPatch>) -> Vec<ROp> { match m { Ok(m) => m.finish(), Err(s) => s }.take_ops().iter().map(ROp::from).collect() }
/// a predecessor with more than 4 GB of output
fn c09_far(c: &mut Ctx) -> Result<(), String> {
    let mut a = crate::edge::far(4000);
    a.extend(crate::edge::tail(&mut c.rng));
    let total = out_len(&a) as u64;
    let mut b = vec![];
    for _ in 0..c.rng.range(1, 6) { if c.rng.chance(1, 3) { b.push(Run(1, 9)) } let n = c.rng.range(1, 200) as u64; b.push(D(if c.rng.chance(1, 3) { c.rng.u64() % (total - n) } else { total - n - c.rng.below(400) as u64 }, n as u16)) }
    b.push(D(0, 65535));
    c.note(|| format!("{}; then {}", show(&a[65537..]), show(&b)));
    c.nontrivial = true;
    let (sa, sb) = (split(&mut c.rng, &a), split(&mut c.rng, &b));
    let (pa, pb) = (patch(&mut c.rng, &sa), patch(&mut c.rng, &sb));
    c.digest = b.iter().fold(c.idx, |h, o| h.rotate_left(7) ^ o.len() as u64 ^ if let D(a, _) = o { *a } else { 0 });
    let m = match Merger::new(Cursor::new(&pb)).map_err(|e| e.to_string())? { Ok(m) => m.merge(Cursor::new(&pa)).map_err(|e| format!("merging: {e}"))?, Err(_) => return Err("nothing left to merge although the patch copies from its source".into()) };
    let g = summary(m);
    let (w, x, y) = (crate::edge::Sym::new(&a), crate::edge::Sym::new(&b), crate::edge::Sym::new(&g));
    ensure!(x.total() == y.total(), "merged patch generates {} bytes instead of {}", y.total(), x.total());
    for p in 0..x.total() { let want = match x.at(p).unwrap() { crate::edge::S::D(a) => w.at(a).unwrap(), l => l }; let got = y.at(p); ensure!(got.as_ref() == Some(&want), "byte {p} of the merged patch is {got:?} instead of {want:?}") }
    Ok(())
}
fn c09(c: &mut Ctx) -> Result<(), String> {
    if c.idx % 6000 == 31 { return c09_far(c) }
    let wide = c.idx % 3000 == 33;
    let n0 = c.rng.below(400);
    let src: Vec<u8> = (0..n0).map(|i| (i as u8).wrapping_mul(7).wrapping_add((i >> 8) as u8)).collect();
    let k = c.rng.range(if wide { 3 } else { 2 }, 6);
    let mut cur = src.clone();
    let mut pats = vec![];
    let big = c.rng.chance(1, 25);
    for j in 0..k {
        let n = if c.rng.chance(1, 20) { 0 } else { c.rng.range(1, 14) };
        let mut o = refm::ops(&mut c.rng, cur.len(), 0, n, big);
        if c.rng.chance(1, 3) { // mostly copies
            o.retain(|x| matches!(x, D(..)));
            let tot = out_len(&o);
            if tot > 0 { let m = size(&mut c.rng, tot.min(65535)); let a = c.rng.below(tot - m + 1); o.push(O(a as u64, m as u16)); }
        }
        if wide && j == k - 2 { let m = c.rng.range(30_000, 50_000); o = (0..m).map(|i| if cur.is_empty() || i % 3 == 0 { Run(i as u8, 1) } else if i % 3 == 1 { D((i % cur.len()) as u64, 1) } else { Add(vec![(i >> 8) as u8]) }).collect(); }
        if wide && j == k - 1 { let m = cur.len() as u16; o = vec![D(0, m), Run(3, 7), D(1, m - 1), D(2, m - 2), Add(vec![1, 2]), D(5, 20), O(4, 40_00)]; }
        let next = refm::apply(&o, Some(&cur)).ok_or("generator")?;
        if j > 0 && o.iter().any(|x| matches!(x, D(..))) { c.nontrivial = true }
        c.note(|| format!("patch {j} on {} bytes: {}", cur.len(), show(&o)));
        let secs = split(&mut c.rng, &o);
        pats.push(patch(&mut c.rng, &secs));
        cur = next;
    }
    for p in &pats { let p = p.clone(); c.hash(&p) }
    let merged = |upto: usize| -> Result<(Vec<ROp>, Vec<u8>, bool), String> {
        let mut m = Merger::new(Cursor::new(&pats[k - 1])).map_err(|e| format!("Merger::new: {e}"))?;
        for j in (upto..k - 1).rev() {
            m = match m {
                Ok(mm) => mm.merge(Cursor::new(&pats[j])).map_err(|e| format!("merging patch {j}: {e}"))?,
                Err(s) => Err(s),
            };
        }
        let (s, done) = match m { Ok(m) => (m.finish(), false), Err(s) => (s, true) };
        let mut b = vec![];
        let mut r = Rng::new(c.idx);
        // take_ops consumes; write to bytes and parse
        s.write(&mut b, if r.chance(1, 2) { None } else { Some(70000) }, Some(fmt_of(&mut r)), None).map_err(|e| format!("writing the summary: {e}"))?;
        let (secs, _) = parse_patch(&b).ok_or("the merged patch is malformed")?;
        Ok((secs.into_iter().flat_map(|x| x.1).collect(), b, done))
    };
    let (ops, b, done) = merged(0)?;
    if done { ensure!(!ops.iter().any(|o| matches!(o, D(..))), "merging reports that no source is needed, but the result copies from it: {}", show(&ops)); }
    let g = apply(&b, if done { None } else { Some(&src) }, 0).map_err(|e| format!("the merged patch can not be applied: {e}"))?;
    ensure!(g == cur, "the merged patch gives {} bytes, the patches one after another {} bytes; first difference {:?}", g.len(), cur.len(), g.iter().zip(&cur).position(|(a, b)| a != b));
    ensure!(refm::apply(&ops, Some(&src)).as_deref() == Some(&cur[..]), "the merged operations do not describe the last file");
    let f = fmt_of(&mut c.rng);
    let two = |d: Option<&crate::io::Plans>| -> std::io::Result<Vec<u8>> {
        let (l, m) = (Cursor::new(&pats[k - 1]), Cursor::new(&pats[k - 2]));
        let mut b = vec![];
        let s = match d {
            None => match Merger::new(l)? { Err(s) => s, Ok(x) => match x.merge(m)? { Ok(x) => x.finish(), Err(s) => s } },
            Some(d) => match Merger::new(crate::io::dev(l, &d[0]))? { Err(s) => s, Ok(x) => match x.merge(crate::io::dev(m, &d[1]))? { Ok(x) => x.finish(), Err(s) => s } },
        };
        match d { None => s.write(&mut b, None, Some(f), None)?, Some(d) => { let mut o = crate::io::dev(b, &d[2]); s.write(&mut o, None, Some(f), None)?; b = o.get() } }
        Ok(b)
    };
    let want = two(None).map_err(|e| e.to_string())?;
    crate::io::stress(c, 3, true, pats[k - 1].len() + pats[k - 2].len(), Some(&want), |d| two(Some(d))).map_err(|e| format!("merging: {e}"))?;
    Ok(())
}
#[derive(PartialEq, Clone, Debug)]
enum S { Lit(u8), D(u64), O(u64) }
fn sym(o: &ROp, v: &mut Vec<S>) {
    match o { Add(b) => v.extend(b.iter().map(|x| S::Lit(*x))), Run(b, n) => v.extend((0..*n).map(|_| S::Lit(*b))), D(a, n) => v.extend((0..*n as u64).map(|i| S::D(a + i))), O(a, n) => v.extend((0..*n as u64).map(|i| S::O(a + i))) }
}
/// output beyond 2^32
fn c10_far(c: &mut Ctx) -> Result<(), String> {
    let mut o = crate::edge::far(4000);
    let t = crate::edge::tail(&mut c.rng);
    c.note(|| format!("{} bytes, then {}", crate::edge::FAR, show(&t)));
    o.extend(t);
    c.nontrivial = true;
    let secs = split(&mut c.rng, &o);
    let p = patch(&mut c.rng, &secs);
    c.digest = out_len(&o) as u64 ^ c.idx << 40;
    let (x, st) = extract_patch_instructions(Cursor::new(&p)).map_err(|e| format!("extraction fails: {e}"))?;
    ensure!(x.len() == o.len(), "{} operations extracted of {}", x.len(), o.len());
    let mut at = 0u64;
    let mut copied = 0;
    for ((pos, op), r) in x.iter().zip(&o) { ensure!(*pos == at && ROp::from(op) == *r, "operation {r:?} at {at} is extracted as {:?} at {pos}", ROp::from(op)); at += r.len() as u64; if matches!(r, D(..) | O(..)) { copied += r.len() } }
    ensure!(st.output_size as u64 == at && st.copy_bytes == copied, "statistics {st:?}: output of {at} bytes, {copied} copied");
    for q in (1u64 << 32) - 70_000..at + 2 {
        if q > (1 << 32) - 60_000 && q < (1 << 32) - 300 { continue }
        let w = if q >= at { None } else { Some(x.partition_point(|y| y.0 <= q) - 1) };
        let g = find_controlling_op(&x, q);
        ensure!(g == w, "offset {q} is generated by operation {w:?} but the lookup says {g:?}");
    }
    let flat = |a: u64, b: u64| -> Vec<S> { let mut v = vec![]; for ((s, _), r) in x.iter().zip(&o) { if *s < b && s + r.len() as u64 > a { let mut t = vec![]; sym(r, &mut t); for (i, y) in t.into_iter().enumerate() { let p = s + i as u64; if a <= p && p < b { v.push(y) } } } } v };
    for _ in 0..12 {
        let a = at - 1 - c.rng.below(900) as u64;
        let b = a + 1 + c.rng.below(700) as u64;
        let g = get_exact_slice(&x, a, (b - a) as u32);
        if b > at { ensure!(g.is_none(), "range {a}..{b} is not covered but a slice is returned"); continue }
        let g = g.ok_or(format!("range {a}..{b} is covered but no slice is returned"))?;
        let mut v = vec![];
        for (_, op) in &g { sym(&ROp::from(op), &mut v) }
        ensure!(v == flat(a, b) && g[0].0 == a, "slice {a}..{b} (from {}) generates other bytes", g[0].0);
    }
    Ok(())
}
fn c10(c: &mut Ctx) -> Result<(), String> {
    if c.idx % 5000 == 31 { return c10_far(c) }
    let n = c.rng.range(0, 16);
    let big = c.rng.chance(1, 40);
    let o = refm::ops(&mut c.rng, 3000, 0, n, big);
    c.nontrivial = o.len() >= 3;
    let secs = split(&mut c.rng, &o);
    let p = patch(&mut c.rng, &secs);
    c.hash(&p);
    c.note(|| show(&o));
    let (x, st) = extract_patch_instructions(Cursor::new(&p)).map_err(|e| format!("extraction fails: {e}"))?;
    let mut at = 0u64;
    let mut all = vec![];
    ensure!(x.len() == o.len(), "{} operations extracted of {}", x.len(), o.len());
    let mut want = Stats::default();
    for ((pos, op), r) in x.iter().zip(&o) {
        ensure!(*pos == at && ROp::from(op) == *r, "operation {r:?} at {at} is extracted as {:?} at {pos}", ROp::from(op));
        let l = r.len();
        at += l as u64;
        want.output_size += l;
        match r { Add(_) => { want.add_bytes += l; want.add_cnt += 1 } Run(..) => { want.run_bytes += l; want.run_cnt += 1 } D(..) => { want.copy_bytes += l; want.copy_d_cnt += 1 } O(..) => { want.copy_bytes += l; want.copy_o_cnt += 1 } }
        sym(r, &mut all);
    }
    ensure!(st == want, "statistics {st:?} instead of {want:?}");
    let text = |x: &[smdiff_merger::SparseOp]| format!("{:?}", x.iter().map(|(p, o)| (*p, ROp::from(o))).collect::<Vec<_>>()).into_bytes();
    let w = text(&x);
    crate::io::stress(c, 1, true, p.len(), Some(&w), |d| Ok(text(&extract_patch_instructions(crate::io::dev(Cursor::new(&p), &d[0]))?.0))).map_err(|e| format!("extracting: {e}"))?;
    let total = at;
    let probes: Vec<u64> = if total < 3000 { (0..total + 3).collect() } else { (0..200).map(|_| c.rng.below(total as usize + 3) as u64).collect() };
    for q in probes {
        let w = x.iter().position(|(p, op)| *p <= q && q < *p + ROp::from(op).len() as u64);
        let g = find_controlling_op(&x, q);
        ensure!(g == w, "offset {q} is generated by operation {w:?} but the lookup says {g:?}");
    }
    let ends: Vec<u64> = x.iter().map(|y| y.0).chain([total]).collect();
    for i in 0..if total < 100 { 400 } else { 80 } {
        let pick = |r: &mut Rng| -> u64 { if r.chance(1, 2) && !ends.is_empty() { let b = *r.pick(&ends); b.saturating_add(r.below(3) as u64).saturating_sub(1) } else { r.below(total as usize + 2) as u64 } };
        let (a, b) = (pick(&mut c.rng), pick(&mut c.rng));
        let (a, b) = (a.min(b), a.max(b).max(a.min(b) + 1));
        if b - a > 200_000 { continue }
        let g = get_exact_slice(&x, a, (b - a) as u32);
        if b > total { ensure!(g.is_none(), "range {a}..{b} is not covered (output has {total} bytes) but a slice is returned"); continue }
        let g = g.ok_or(format!("range {a}..{b} is covered (output has {total} bytes) but no slice is returned"))?;
        let mut v = vec![];
        let mut e = a;
        for (p, op) in &g { let r = ROp::from(op); ensure!(*p == e, "slice {a}..{b}: operation at {p} instead of {e}"); ensure!(r.len() > 0, "slice {a}..{b} contains an empty operation"); e += r.len() as u64; sym(&r, &mut v); }
        ensure!(v == all[a as usize..b as usize], "slice {a}..{b} generates other bytes: {:?}", g.iter().map(|z| ROp::from(&z.1)).map(|z| show(&[z])).collect::<Vec<_>>());
    }
    Ok(())
}
fn c11_far(c: &mut Ctx) -> Result<(), String> {
    let mut o = crate::edge::far(4000);
    for _ in 0..3 { o.extend(crate::edge::tail(&mut c.rng)); if c.rng.chance(2, 3) { let b = c.rng.u8(); let n = c.rng.range(5, 40); o.extend((0..n).map(|_| Run(b, 62))) } }
    { let mut done = 0; for x in o.iter_mut() { if let O(a, n) = x { *a = (*a).min(done - *n as u64) } done += x.len() as u64; } }
    let f = fmt_of(&mut c.rng);
    let sz = seg_size(&mut c.rng);
    c.note(|| format!("{} bytes, then {}; layout {f:?} section size {sz}", crate::edge::FAR, show(&o[65537..])));
    c.nontrivial = true;
    c.digest = c.idx ^ (out_len(&o) as u64) << 20;
    let secs = split(&mut c.rng, &o);
    let p = patch(&mut c.rng, &secs);
    let mut q = vec![];
    transcoder::transcode(&mut Cursor::new(&p), &mut q, f, None, sz).map_err(|e| format!("transcoding fails: {e}"))?;
    let (s, _) = parse_patch(&q).ok_or("the transcoded patch is malformed")?;
    let g: Vec<ROp> = s.into_iter().flat_map(|x| x.1).collect();
    crate::edge::same(&mut c.rng, &o, &g).map_err(|e| format!("transcoded patch with more than 4 GB of output: {e}"))
}
fn c11(c: &mut Ctx) -> Result<(), String> {
    if c.idx % 6000 == 31 { return c11_far(c) }
    let src: Vec<u8> = (0..3000usize).map(|i| (i as u8).wrapping_mul(7).wrapping_add((i >> 8) as u8)).collect();
    let big = c.rng.chance(1, 20);
    let mut o: Vec<ROp> = vec![];
    for _ in 0..c.rng.range(0, 6) {
        let d = out_len(&o);
        let n = c.rng.range(0, 5);
        o.extend(refm::ops(&mut c.rng, src.len(), d, n, big));
        match c.rng.below(4) {
            0 => { let b = c.rng.u8(); for _ in 0..c.rng.range(1, 14) { o.push(Run(b, *c.rng.pick(&[1u8, 2, 61, 62, 62, 30]))) } }
            1 => { for _ in 0..c.rng.range(1, 6) { let m = if big { *c.rng.pick(&[1usize, 65534, 65535, 40000, 3]) } else { c.rng.range(1, 40) }; o.push(Add(c.rng.bytes(m))) } }
            2 if c.rng.chance(1, 12) => { let b = c.rng.u8(); for _ in 0..c.rng.range(14, 3000) { o.push(Run(b, 62)) } }
            _ => {}
        }
    }
    c.nontrivial = o.windows(2).any(|w| matches!((&w[0], &w[1]), (Add(_), Add(_)) | (Run(..), Run(..))));
    let want = refm::apply(&o, Some(&src)).ok_or("generator")?;
    let secs = split(&mut c.rng, &o);
    let p = patch(&mut c.rng, &secs);
    c.hash(&p);
    let f = fmt_of(&mut c.rng);
    let sz = seg_size(&mut c.rng);
    let comp = if c.rng.chance(1, 8) { Some(enc::sec(&mut c.rng)) } else { None };
    c.note(|| format!("{}; layout {f:?} section size {sz} compression {:?}", show(&o), comp.as_ref().map(|x| x.algo_value())));
    let mut q = vec![];
    transcoder::transcode(&mut Cursor::new(&p), &mut q, f, comp.clone(), sz).map_err(|e| format!("transcoding fails: {e}"))?;
    let g = apply(&q, Some(&src), 0).map_err(|e| format!("the transcoded patch can not be applied: {e}"))?;
    ensure!(g == want, "the transcoded patch gives {} bytes, the original {}; first difference {:?}", g.len(), want.len(), g.iter().zip(&want).position(|(a, b)| a != b));
    crate::io::stress(c, 2, comp.is_none(), p.len() + q.len(), Some(&q), |d| {
        let mut o = crate::io::dev(vec![], &d[1]);
        transcoder::transcode(&mut crate::io::dev(Cursor::new(&p), &d[0]), &mut o, f, comp.clone(), sz)?;
        Ok(o.get())
    }).map_err(|e| format!("transcoding: {e}"))?;
    if comp.is_none() { let (s, n) = parse_patch(&q).ok_or("the transcoded patch is malformed")?; ensure!(n == q.len(), "bytes follow the transcoded patch"); ensure!(s.iter().all(|x| x.0.seg == (f == smdiff_common::Format::Segregated)), "wrong layout") }
    Ok(())
}
