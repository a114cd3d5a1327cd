//! Checksums (C14), match tables (C15), level mapping (C17): private parts through the cfg(smdiff_verif) hook.
use crate::core::*;
use crate::fmt::ensure;
use smdiff_encoder::verif::*;
use smdiff_encoder::{EncoderConfig, SrcMatcherConfig, TrgtMatcherConfig};
use std::collections::{HashMap, HashSet};
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", case: c14, quick: 1_000_000, thorough: 20_000_000, hang_s: 60, rule: "byte strings of 9-400 bytes (random, few symbols, constant, extreme); slide both checksums over them in both directions from random positions; every 8th case encodes a target holding one block of a short source / one repeated block that must be found; non-trivial: more than one slide" },
        Prop { id: "C15", case: c15, quick: 600_000, thorough: 6_000_000, hang_s: 60, rule: "random insert/lookup sequences against a map from hashes to their last position; table capacities 0..70000, hashes of both widths including extremes and equal slots; chains of any power-of-two capacity with arbitrary insertions, and used as the matcher does; non-trivial: a position was replaced" },
        Prop { id: "C17", case: c17, quick: 3_000_000, thorough: 60_000_000, hang_s: 60, rule: "all ten levels of the three shipped mappings through the public configurations; random mappings (input ranges of 2..2^20 values, rising and falling output ranges), random and extreme inputs; non-trivial: general mapping" },
    ]
}

fn data(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) { 0 => { let b = *r.pick(&[0u8, 1, 127, 128, 255]); let mut v = vec![b; n]; if n > 0 && r.chance(1, 2) { let i = r.below(n); v[i] = r.u8() } v } _ => r.bytes(n) }
}
fn c14(c: &mut Ctx) -> Result<(), String> {
    if c.idx % 8 == 3 { return c14_use(c) }
    let n = if c.rng.chance(1, 30) { c.rng.range(9, 400) } else { c.rng.range(9, 40) };
    let d = data(&mut c.rng, n);
    c.hash(&d);
    c.note(|| format!("slide over {}", hex(&d)));
    c.nontrivial = n > 10;
    let a = c.rng.below(n - 8);
    let mut h = large_checksum(&d[a..]);
    ensure!(h == large_checksum(&d[a..a + 9]), "the checksum of the window at {a} depends on bytes after it");
    for i in a..n - 9 {
        h = large_checksum_fwd(h, d[i], d[i + 9]);
        ensure!(h == large_checksum(&d[i + 1..]), "large checksum moved forwards from {a} to {} differs from the direct one", i + 1);
    }
    let b = c.rng.below(n - 8);
    let mut h = large_checksum(&d[b..]);
    for i in (0..b).rev() {
        h = large_checksum_bwd(h, d[i + 9], d[i]);
        ensure!(h == large_checksum(&d[i..]), "large checksum moved backwards from {b} to {i} differs from the direct one");
    }
    let a = c.rng.below(n - 3);
    let mut h = small_checksum(&d[a..]);
    ensure!(h == small_checksum(&d[a..a + 4]), "the small checksum of the window at {a} depends on bytes after it");
    for i in a..n - 4 {
        h = small_checksum_fwd(h, d[i], d[i + 4]);
        ensure!(h == small_checksum(&d[i + 1..]), "small checksum moved forwards from {a} to {} differs from the direct one", i + 1);
    }
    Ok(())
}
/// the matchers look up and store the checksum of the bytes there: a block that occurs once must be found
fn c14_use(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.rng;
    let rnd = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| r.u8()).collect() };
    let (pre, suf) = (r.range(0, 60), r.range(0, 60));
    if r.chance(1, 2) {
        let k = r.range(40, 90);
        let s = rnd(r, k);
        let mut t = rnd(r, pre);
        let at = t.len();
        t.extend(&s);
        t.extend(rnd(r, suf));
        c.hash(&t);
        c.nontrivial = true;
        c.note(|| format!("source {} target {} holding it at {at}, step 1", hex(&s), hex(&t)));
        let cfg = EncoderConfig::default().set_match_src(SrcMatcherConfig::new(1, None));
        let mut p = vec![];
        smdiff_encoder::encode(Some(&mut Cursor::new(&s)), &mut Cursor::new(&t), &mut p, &cfg).map_err(|e| e.to_string())?;
        let (secs, _) = crate::refm::parse_patch(&p).ok_or("malformed patch")?;
        ensure!(secs.iter().flat_map(|x| &x.1).any(|o| matches!(o, crate::refm::ROp::D(_, l) if *l as usize >= 9)), "the source was not found at {at} although its checksum is in the table");
    } else {
        let k = r.range(40, 90);
        let s = rnd(r, k);
        let mid = r.range(1, 40);
        let mut t = rnd(r, pre);
        t.extend(&s);
        t.extend(rnd(r, mid));
        let at = t.len();
        t.extend(&s);
        t.extend(rnd(r, suf));
        c.hash(&t);
        c.nontrivial = true;
        c.note(|| format!("target {} repeating {k} bytes at {at}", hex(&t)));
        let cfg = EncoderConfig::default().no_match_src().set_match_target(TrgtMatcherConfig { compress_early_exit: 100, chain_check: 1000, prev_table_capacity: Some(1024) });
        let mut p = vec![];
        smdiff_encoder::encode(None::<&mut Cursor<&[u8]>>, &mut Cursor::new(&t[..]), &mut p, &cfg).map_err(|e| e.to_string())?;
        let (secs, _) = crate::refm::parse_patch(&p).ok_or("malformed patch")?;
        ensure!(secs.iter().flat_map(|x| &x.1).any(|o| matches!(o, crate::refm::ROp::O(_, l) if *l as usize >= 4)), "the repeated block was not found at {at} although it was stored");
    }
    Ok(())
}
fn c15(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.rng;
    let small = r.chance(1, 2);
    let cap = match r.below(6) { 0 => r.below(5), 1 => r.below(40), 2 => { let b = 1usize << r.below(17); b.saturating_sub(r.below(3)) + r.below(2) } 3 => r.below(70000), _ => r.below(300) };
    let keys: Vec<usize> = {
        let k = r.range(1, 40);
        let mut v: Vec<usize> = (0..k).map(|_| match r.below(5) { 0 => r.below(40), 1 => r.interesting_u64() as usize, 2 => usize::MAX - r.below(40), 3 => { let z = r.below(64); (1usize << z).wrapping_sub(r.below(2)) } _ => r.u64() as usize }).collect();
        if small { for x in v.iter_mut() { *x &= 0xffff_ffff } }
        let extra: Vec<usize> = v.iter().map(|x| x ^ 1 << r.below(if small { 32 } else { 64 })).collect();
        v.extend(extra);
        v
    };
    c.hash(&cap.to_le_bytes());
    let mut t = Table::new(cap, small);
    let mut m: HashMap<usize, usize> = HashMap::new();
    let log: Vec<String> = vec![];
    let verbose = c.verbose;
    let steps = c.rng.range(1, 120);
    for _ in 0..steps {
        let h = *c.rng.pick(&keys);
        if c.rng.chance(2, 3) {
            let p = match c.rng.below(3) { 0 => c.rng.below(5), 1 => c.rng.u64() as usize >> 20, _ => c.rng.below(100000) };
            c.hash(&p.to_le_bytes());
            if verbose { c.note(|| format!("insert {h:#x} {p}")) }
            match (t.insert(h, p), m.get(&h).copied()) {
                (Ok(Some(o)), Some(x)) => ensure!(o == x, "capacity {cap}: inserting {h:#x} again gave back position {o} instead of {x}"),
                (r, Some(x)) => return Err(format!("capacity {cap}: inserting {h:#x} again gave {r:?}, stored was {x}")),
                (Ok(None), None) => {}
                (Ok(Some(o)), None) => return Err(format!("capacity {cap}: inserting {h:#x} gave back position {o} that was never stored for it or already replaced")),
                (Err((h2, o)), None) => { c.nontrivial = true; let x = m.remove(&h2); ensure!(x == Some(o), "capacity {cap}: inserting {h:#x} evicted ({h2:#x}, {o}), stored was {x:?}") }
            }
            m.insert(h, p);
        } else if verbose { c.note(|| format!("get {h:#x}")) }
        let q = *c.rng.pick(&keys);
        for q in [h, q] { ensure!(t.get(q) == m.get(&q).copied(), "capacity {cap} small={small}: looking up {q:#x} gives {:?}, stored {:?}", t.get(q), m.get(&q)) }
    }
    // chain
    let cap = match c.rng.below(8) { 0 => 0, x => 1usize << c.rng.below(if x == 1 { 17 } else { 8 }) };
    let mut ch = Chain::new(cap);
    let mut all: HashSet<(usize, usize)> = HashSet::new();
    let used = c.rng.chance(1, 2);
    let mut t = Table::new(64, true);
    let mut pos = 0;
    let nk = c.rng.range(1, 6);
    let space = c.rng.range(1, 500);
    c.note(|| format!("chain capacity {cap} used={used}"));
    let steps = c.rng.range(1, 150);
    for _ in 0..steps {
        let h = c.rng.below(nk);
        let (start, cur);
        if used { // as the target matcher: ascending positions
            match t.insert(h, pos) { Ok(None) => {} Ok(Some(p)) => { ch.insert(h, pos, p); all.insert((h, p)); } Err((h2, p)) => { ch.insert(h2, pos, p); all.insert((h2, p)); } }
            start = pos;
            pos += c.rng.range(1, 3);
            cur = pos;
        } else {
            let (k, p) = (c.rng.below(space), c.rng.below(space));
            c.note(|| format!("chain insert {h} {k} {p}"));
            ch.insert(h, k, p);
            all.insert((h, p));
            start = c.rng.below(space);
            cur = start + c.rng.below(space);
        }
        let h = c.rng.below(nk);
        let mut last = start;
        let mut n = 0;
        for x in ch.iter_prev_starts(start, cur, h) {
            ensure!(x < last, "capacity {cap}: walking hash {h} from {start} yields {x} after {last}");
            ensure!(all.contains(&(h, x)), "capacity {cap}: walking hash {h} from {start} yields {x}, which was never stored for it");
            last = x;
            n += 1;
            ensure!(n <= 100_000, "the walk does not end");
        }
        ensure!(cap != 0 || n == 0, "an empty chain yields a position");
        if n > 0 { c.nontrivial = true }
    }
    Ok(())
}
fn c17(c: &mut Ctx) -> Result<(), String> {
    if c.idx == 0 {
        let mut prev: Option<(usize, usize, usize)> = None;
        for l in 0..=9usize {
            let s = SrcMatcherConfig::comp_level(l).l_step;
            let t = TrgtMatcherConfig::comp_level(l);
            let e = EncoderConfig::comp_level(l, true, None);
            let (x, d) = (t.compress_early_exit, t.chain_check);
            c.note(|| format!("level {l}: step {s} exit {x} depth {d}"));
            ensure!((2..=26).contains(&s) && (6..=70).contains(&x) && (1..=33).contains(&d), "level {l}: step {s} exit {x} depth {d}");
            ensure!(e.match_src.as_ref().map(|m| m.l_step) == Some(s) && e.match_trgt.as_ref().map(|m| (m.compress_early_exit, m.chain_check)) == Some((x, d)), "level {l}: EncoderConfig::comp_level gives other settings");
            if let Some((ps, px, pd)) = prev { ensure!(s <= ps && x >= px && d >= pd, "level {l}: step {s} exit {x} depth {d} after {ps} {px} {pd}") }
            if l == 0 { ensure!((s, x, d) == (26, 6, 1), "level 0: step {s} exit {x} depth {d}") }
            if l == 9 { ensure!((s, x, d) == (2, 70, 33), "level 9: step {s} exit {x} depth {d}") }
            prev = Some((s, x, d));
        }
        return Ok(());
    }
    let r = &mut c.rng;
    let big = r.chance(1, 4);
    let lim = if big { 1usize << 30 } else { 40 };
    let a = r.below(lim);
    let span = r.range(1, if big { 1 << 20 } else { 30 });
    let (f, l) = (r.below(lim), r.below(lim));
    let mut vs: Vec<usize> = (0..4).map(|_| match r.below(5) { 0 => a, 1 => a + span, 2 => r.below(a + 1), 3 => a + span + r.below(100), _ => a + r.below(span + 1) }).collect();
    if r.chance(1, 8) { vs.push(usize::MAX) }
    vs.sort();
    c.hash(&a.to_le_bytes()); c.hash(&span.to_le_bytes()); c.hash(&f.to_le_bytes()); c.hash(&l.to_le_bytes());
    c.nontrivial = true;
    c.note(|| format!("map {a}..{} to {f}..={l} at {vs:?}", a + span + 1));
    let mut prev: Option<usize> = None;
    for v in vs {
        let o = map_level(a, a + span + 1, f, l, v);
        ensure!(o >= f.min(l) && o <= f.max(l), "{v} maps to {o}, outside {f}..={l}");
        let n = v.clamp(a, a + span);
        ensure!(o == map_level(a, a + span + 1, f, l, n), "{v} maps to {o}, the nearest valid level {n} to another value");
        if n == a { ensure!(o == f, "the first level maps to {o} instead of {f}") }
        if n == a + span { ensure!(o == l, "the last level maps to {o} instead of {l}") }
        if let Some(p) = prev { ensure!(if f <= l { o >= p } else { o <= p }, "{v} maps to {o} after {p}: not monotone for {f}..={l}") }
        prev = Some(o);
    }
    Ok(())
}
