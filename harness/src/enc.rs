//! Encoder: round trip (C01), total (C02), secondary compression (C12).
use crate::core::*;
use crate::dec::apply;
use crate::fmt::ensure;
use crate::refm::{self, ROp::*, *};
use smdiff_encoder::{EncoderConfig, SecondaryCompression, SrcMatcherConfig, TrgtMatcherConfig};
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", case: c01, quick: 200_000, thorough: 3_000_000, hang_s: 120, rule: "source/target pairs (related by copies, edits, runs, periods, prefixes/suffixes; sizes around hash windows and instruction limits, some of several MB) under random configurations; the patch is applied by the decoder and, when uncompressed, by a reference interpreter; non-trivial: the patch contains a copy or run" },
        Prop { id: "C02", case: c02, quick: 180_000, thorough: 3_000_000, hang_s: 120, rule: "as C01 with more tiny and degenerate inputs and all configurations; encoding must return Ok; non-trivial: target of at least four bytes" },
        Prop { id: "C12", case: c12, quick: 8_000, thorough: 300_000, hang_s: 60, rule: "sequences of sections, each plain or compressed by one of the three methods at random settings, in either layout, from empty up to several hundred kB; read back by the decompressing reader; unknown methods must be errors; non-trivial: a compressed section with operations" },
    ]
}
pub fn trgt_cfg(r: &mut Rng) -> TrgtMatcherConfig {
    let mut c = TrgtMatcherConfig::comp_level(r.below(10));
    if r.chance(1, 2) { c.chain_check = *r.pick(&[0usize, 1, 2, 3, 7, 33, 1000]); c.compress_early_exit = *r.pick(&[0usize, 4, 6, 70, 1000]); }
    c.prev_table_capacity = match r.below(5) { 0 => Some(0), 1 => Some(1 << r.below(8)), 2 => Some(1 << r.below(18)), _ => None };
    c
}
pub fn config(r: &mut Rng, comp: bool) -> EncoderConfig {
    let mut c = EncoderConfig::default();
    c.match_src = if r.chance(1, 5) { None } else {
        Some(SrcMatcherConfig::new(*r.pick(&[0usize, 1, 2, 3, 5, 8, 9, 10, 26, 100]), match r.below(3) { 0 => None, 1 => Some(*r.pick(&[0usize, 1, 1 << 20, (1 << 20) + 1, 1 << 24])), _ => Some(1 << 20) }))
    };
    c.match_trgt = if r.chance(1, 3) { None } else { Some(trgt_cfg(r)) };
    c.lazy_escape_len = match r.below(3) { 0 => None, 1 => Some(*r.pick(&[0usize, 1, 2, 5, 45])), _ => Some(r.below(200)) };
    c.naive_tests = if r.chance(1, 2) { Some(Default::default()) } else { None };
    c.output_segment_size = match r.below(3) { 0 => c.output_segment_size, 1 => *r.pick(&[0usize, 1, 65534, 65535, 65536, 70000, 131070, 16777215, 16777216, usize::MAX]), _ => r.range(60000, 300000) };
    c.format = if r.chance(1, 2) { smdiff_common::Format::Interleaved } else { smdiff_common::Format::Segregated };
    if comp && r.chance(1, 10) { c.sec_comp = Some(sec(r)); }
    c
}

pub fn sec(r: &mut Rng) -> SecondaryCompression {
    match r.below(3) {
        0 => SecondaryCompression::Smdiff(trgt_cfg(r)),
        1 => SecondaryCompression::Zstd { level: *r.pick(&[1, 1, 2, 3, 3, 5, 9, 19, 20, 22]) },
        _ => {
            use smdiff_encoder::brotli::*;
            let mut o = BrotliEncoderOptions::new();
            if r.chance(1, 2) { o.quality(Quality::new(*r.pick(&[0u8, 1, 4, 5, 9, 11])).unwrap()); }
            if r.chance(1, 2) { o.window_size(WindowSize::new(*r.pick(&[10u8, 16, 22, 24])).unwrap()); }
            SecondaryCompression::Brotli { options: o }
        }
    }
}
pub fn encode(src: Option<&[u8]>, t: &[u8], cfg: &EncoderConfig) -> std::io::Result<Vec<u8>> {
    let mut o = vec![];
    let mut tc = Cursor::new(t);
    match src { Some(s) => { let mut s = Cursor::new(s); smdiff_encoder::encode(Some(&mut s), &mut tc, &mut o, cfg)? } None => smdiff_encoder::encode(None, &mut tc, &mut o, cfg)? }
    Ok(o)
}
/// the same on streams that transfer little, are interrupted, or fail once
pub fn tough_encode(c: &mut Ctx, src: Option<&[u8]>, t: &[u8], cfg: &EncoderConfig, want: &[u8]) -> Result<(), String> {
    crate::io::stress(c, 3, cfg.sec_comp.is_none(), t.len() + src.map_or(0, |s| s.len()), Some(want), |d| {
        let mut o = crate::io::dev(vec![], &d[2]);
        let mut tc = crate::io::dev(Cursor::new(t), &d[0]);
        match src { Some(s) => smdiff_encoder::encode(Some(&mut crate::io::dev(Cursor::new(s), &d[1])), &mut tc, &mut o, cfg)?, None => smdiff_encoder::encode(None, &mut tc, &mut o, cfg)? }
        Ok(o.get())
    }).map_err(|e| format!("encoding: {e}"))
}
pub fn describe(s: Option<&[u8]>, t: &[u8], cfg: &EncoderConfig) -> String {
    let sc = match &cfg.sec_comp { None => "none".into(), Some(SecondaryCompression::Smdiff(_)) => "smdiff".to_string(), Some(SecondaryCompression::Zstd { level }) => format!("zstd {level}"), Some(SecondaryCompression::Brotli { .. }) => "brotli".into() };
    format!("source {:?} target {} match_src {:?} match_trgt {:?} lazy {:?} naive {} format {:?} segment {} compression {}", s.map(hex), hex(t), cfg.match_src, cfg.match_trgt, cfg.lazy_escape_len, cfg.naive_tests.is_some(), cfg.format, cfg.output_segment_size, sc)
}
/// source, target and configuration of an encoder case
pub fn input(c: &mut Ctx) -> (Vec<u8>, Vec<u8>, EncoderConfig, bool) {
    let r = &mut c.rng;
    let mut cfg = config(r, true);
    let (s, t) = match c.idx % 4000 {
        // big inputs: source window sliding, large matches
        5 | 1005 | 2005 | 3005 => {
            let n = r.range(1 << 20, 5 << 20);
            let s: Vec<u8> = { let mut x = Rng::new(r.u64()); let mut v = vec![]; while v.len() < n { if x.chance(1, 50) { let b = x.u8(); let k = x.range(1, 3000); v.extend(std::iter::repeat(b).take(k)) } else { v.extend(x.u64().to_le_bytes()) } } v };
            let mut t = if r.chance(1, 3) { let a = r.below(s.len()); s[a..].to_vec() } else { s.clone() };
            for _ in 0..r.range(0, 40) { if t.is_empty() { break } let a = r.below(t.len()); let k = r.range(1, 40000).min(t.len() - a); match r.below(4) { 0 => { t.drain(a..a + k); } 1 => { let z = t[a..a + k].to_vec(); let b = r.below(t.len()); t.splice(b..b, z); } 2 => t[a] ^= 1, _ => { let z: Vec<u8> = (0..r.range(1, 20000)).map(|_| r.u8()).collect(); t.splice(a..a, z); } } }
            if let Some(m) = cfg.match_src.as_mut() { m.max_src_win_size = Some(1 << 20); if m.l_step == 0 { m.l_step = 1 } }
            if let Some(m) = cfg.match_trgt.as_mut() { m.chain_check = m.chain_check.min(8) }
            if r.chance(1, 3) { t.truncate(r.range(1 << 19, 1 << 20)) }
            (s, t)
        }
        // matches and literals whose length is a multiple of the longest instruction
        x if x % 1000 == 11 => {
            let m = *r.pick(&[1usize, 1, 2, 3]) * 65535;
            let k = if r.chance(1, 2) { m } else { m + r.below(5) - 2 };
            let mut x = Rng::new(r.u64());
            let a: Vec<u8> = (0..k).map(|_| x.u8()).collect();
            match r.below(4) { 0 => (vec![], a), 1 => (a.clone(), a), 2 => (vec![], { let mut t = a.clone(); t.extend(&a); t }), _ => { let mut t = a.clone(); let n = r.below(30); t.extend(r.bytes(n)); (a, t) } }
        }
        // very many operations
        x if x == 15 || x == 2015 => {
            let n = r.range(800_000, 1_000_000);
            let mut x = Rng::new(r.u64());
            let s: Vec<u8> = (0..n).map(|_| x.u8()).collect();
            let mut t = s.clone();
            let mut i = 0;
            while i < n { i += x.range(10, 14); if i < n { t[i] ^= 0x55 } }
            cfg.match_src = Some(SrcMatcherConfig::new(1, None));
            if let Some(m) = cfg.match_trgt.as_mut() { m.chain_check = m.chain_check.min(4) }
            (s, t)
        }
        7 => { let k = r.range(60000, 18_000_000); let b = r.u8(); (vec![], { let mut v = vec![b; k]; if r.chance(1, 2) { let i = r.below(k); v[i] = b ^ 1 } v }) }
        x if x % 200 == 9 => files(r, 200_000),
        x if x % 4 == 1 => { let k = r.range(0, 24); let m = r.range(1, 3); let a: Vec<u8> = (0..r.range(0, 24)).map(|_| r.below(m) as u8).collect(); (a, (0..k).map(|_| r.below(m) as u8).collect()) }
        x if x % 40 == 2 => files(r, 20_000),
        _ => files(r, 700),
    };
    let none = s.is_empty() && r.chance(1, 2);
    (s, t, cfg, none)
}
fn c01(c: &mut Ctx) -> Result<(), String> {
    let (s, t, cfg, none) = input(c);
    c.hash(&s); c.hash(&t);
    let src = if none { None } else { Some(&s[..]) };
    c.note(|| describe(src, &t, &cfg));
    let p = encode(src, &t, &cfg).map_err(|e| format!("encoding fails: {e}"))?;
    c.hash(&p);
    let at = c.rng.below(s.len() + 1) as u64;
    let g = apply(&p, src, at).map_err(|e| format!("the encoded patch can not be applied: {e}"))?;
    ensure!(g == t, "applying the encoded patch gives {} bytes instead of {}, first difference at {:?}", g.len(), t.len(), g.iter().zip(&t).position(|(a, b)| a != b));
    if cfg.sec_comp.is_none() {
        let (secs, n) = parse_patch(&p).ok_or("the encoded patch is malformed")?;
        ensure!(n == p.len(), "{} bytes follow the patch", p.len() - n);
        let ops: Vec<ROp> = secs.into_iter().flat_map(|x| x.1).collect();
        c.nontrivial = ops.iter().any(|o| !matches!(o, Add(_)));
        let g = refm::apply(&ops, src);
        ensure!(g.as_deref() == Some(&t[..]), "the operations of the patch do not describe the target");
    } else { c.nontrivial = t.len() > 4 }
    if c.rng.chance(1, 2) { tough_encode(c, src, &t, &cfg, &p) } else { crate::dec::tough_apply(c, &p, src, at, Some(&t), cfg.sec_comp.is_none()) }
}
fn c02(c: &mut Ctx) -> Result<(), String> {
    let (s, t, cfg, none) = input(c);
    c.hash(&s); c.hash(&t);
    c.nontrivial = t.len() >= 4;
    let src = if none { None } else { Some(&s[..]) };
    c.note(|| describe(src, &t, &cfg));
    let p = encode(src, &t, &cfg).map_err(|e| format!("encoding fails: {e}"))?;
    tough_encode(c, src, &t, &cfg, &p)
}
fn c12(c: &mut Ctx) -> Result<(), String> {
    let k = c.rng.range(1, 5);
    let mut secs = vec![];
    let mut out = vec![];
    let mut last_len = 0;
    let mut buf = vec![];
    for i in 0..k {
        let n = match c.rng.below(10) { 0 => 0, 1 => 1, 2 => c.rng.range(100, 400), _ => c.rng.range(1, 30) };
        let big = c.rng.chance(1, 15);
        let mut o = if c.rng.chance(1, 4) { wild_ops(&mut c.rng, n.min(12)) } else { refm::ops(&mut c.rng, 100000, 5000, n, big) };
        if c.idx % 3000 == 9 { o = (0..256usize).map(|i| Add((0..65535usize).map(|j| (j % 250 + i * 3) as u8).collect())).collect(); o.push(Run(3, 62)); }
        if c.rng.chance(1, 60) { // around the block size of the compressors
            let mut left = *c.rng.pick(&[131072usize, 131072 * 2, 131072 * 3, 65536]) + c.rng.below(40) - 20;
            let rnd = c.rng.chance(1, 2);
            o = vec![];
            while left > 0 { let z = left.min(65535); o.push(Add((0..z).map(|j| if rnd { c.rng.u8() } else { (j % 251) as u8 }).collect())); left -= z; }
        }
        let seg = c.rng.chance(1, 2);
        let mut h = head_of(&o, seg, i + 1 < k);
        let comp = if c.rng.chance(3, 4) { Some(sec(&mut c.rng)) } else { None };
        let l: Vec<LOp> = o.iter().map(|x| x.to()).collect();
        let name = comp.as_ref().map(|x| x.algo_value()).unwrap_or(0);
        c.note(|| format!("section {i} method {name} seg={seg} {}", show(&o)));
        if name != 0 && !o.is_empty() { c.nontrivial = true }
        let before = out.len();
        smdiff_encoder::writer::section_writer(&comp, to_head(&h), &mut out, &l, &mut buf).map_err(|e| format!("writing section {i} with method {name}: {e}"))?;
        ensure!(out[before] >> 3 & 7 == name, "section {i} is marked as method {} instead of {name}", out[before] >> 3 & 7);
        h.algo = name;
        last_len = out.len() - before;
        secs.push((o, h));
    }
    c.hash(&out);
    {
        let (o, h) = &secs[0];
        let comp = if c.rng.chance(3, 4) { Some(sec(&mut c.rng)) } else { None };
        let l: Vec<LOp> = o.iter().map(|x| x.to()).collect();
        let mut h = to_head(h); h.compression_algo = 0;
        let mut want = vec![];
        smdiff_encoder::writer::section_writer(&comp, h, &mut want, &l, &mut vec![]).map_err(|e| e.to_string())?;
        crate::io::stress(c, 1, comp.is_none(), want.len() + out_len(o), Some(&want), |d| {
            let mut s = crate::io::dev(vec![], &d[0]);
            smdiff_encoder::writer::section_writer(&comp, h, &mut s, &l, &mut vec![])?;
            Ok(s.get())
        }).map_err(|e| format!("writing a section: {e}"))?;
    }
    // the writing buffer must not leak into the next patch
    ensure!(buf.is_empty(), "the writer leaves {} bytes in its buffer", buf.len());
    let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&out));
    for (i, (o, h)) in secs.iter().enumerate() {
        let (g, gh): (Vec<ROp>, _) = if c.rng.chance(1, 2) {
            match it.next_borrowed() { Some(Ok((v, h))) => (v.iter().map(ROp::from).collect(), h), Some(Err(e)) => return Err(format!("section {i} (method {}): {e}", h.algo)), None => return Err(format!("section {i} missing")) }
        } else {
            match it.next() { Some(Ok((v, h))) => (v.iter().map(ROp::from).collect(), h), Some(Err(e)) => return Err(format!("section {i} (method {}): {e}", h.algo)), None => return Err(format!("section {i} missing")) }
        };
        ensure!(g == *o, "section {i} (method {}): wrote {} read {}", h.algo, show(o), show(&g));
        ensure!(same_head(&gh, h), "section {i}: header {h:?} read as {gh:?}");
    }
    ensure!(it.next().is_none(), "sections after the last one");
    if c.rng.chance(1, 4) { // operations or totals that can not be written
        let (o, h) = &secs[c.rng.below(k)];
        let mut o = o.clone();
        let mut g = h.clone();
        let i = c.rng.below(o.len() + 1);
        match c.rng.below(5) {
            0 => o.insert(i, Add(vec![0; 65536 + c.rng.below(3)])),
            1 | 2 => { g.n += 1 }
            3 => { g.size += 1 }
            _ if g.seg => { g.adds += 1; g.size = g.size.max(g.adds) }
            _ => { g.size = 1 << 24; }
        }
        if c.rng.chance(1, 2) && o.len() > h.n as usize { let r = head_of(&o, h.seg, h.more); g.n = r.n; g.adds = r.adds; g.size = r.size }
        g.algo = 0;
        let l: Vec<LOp> = o.iter().map(|x| x.to()).collect();
        let comp = if c.rng.chance(3, 4) { Some(sec(&mut c.rng)) } else { None };
        let what = comp.as_ref().map(|x| x.algo_value()).unwrap_or(0);
        ensure!(smdiff_encoder::writer::section_writer(&comp, to_head(&g), &mut vec![], &l, &mut vec![]).is_err(), "a section that can not be represented is written with method {what}: header {g:?} operations {}", show(&o));
    }
    let read = |b: &[u8]| -> Option<Vec<Vec<ROp>>> { let mut v = vec![]; for x in smdiff_decoder::reader::SectionIterator::new(Cursor::new(b)) { v.push(x.ok()?.0.iter().map(ROp::from).collect()) } Some(v) };
    if c.rng.chance(1, 4) { // cut short
        let n = if c.rng.chance(1, 2) { c.rng.range(1, out.len().min(8)) } else { c.rng.range(1, out.len()) };
        let b = &out[..out.len() - n];
        ensure!(read(b).is_none(), "the sections without their last {n} of {} bytes are accepted (method of the last {})", out.len(), secs[k - 1].1.algo);
    }
    if c.rng.chance(1, 4) { // other totals
        let (o, h) = &secs[k - 1];
        let at = out.len() - last_len;
        let old = head_bytes(h);
        ensure!(out[at..].starts_with(&old), "the header of the last section is not where it is expected");
        let mut g = h.clone();
        let d = if c.rng.chance(1, 2) { 1u64 } else { u64::MAX };
        let what = match c.rng.below(3) {
            0 if !o.is_empty() || d == 1 => { g.n = g.n.wrapping_add(d); "operations" }
            1 if h.seg && (h.adds > 0 || d == 1) => { g.adds = g.adds.wrapping_add(d); if g.size < g.adds { g.size = g.adds } "add bytes" }
            _ => { g.size += 1; "output size" }
        };
        let mut b = out[..at].to_vec();
        b.extend(head_bytes(&g));
        b.extend(&out[at + old.len()..]);
        ensure!(read(&b).is_none(), "{what} altered in the header of a section (method {}): {h:?} stated as {g:?} is accepted", h.algo);
    }
    if c.rng.chance(1, 4) { // a section compressed by the own format with arbitrary operations
        let (o, h) = &secs[0];
        let body = body_bytes(o, h.seg);
        if body.len() < 200_000 {
            let mut inner = vec![];
            let mut i = 0;
            while i < body.len() { let n = c.rng.range(1, (body.len() - i).min(60_000)); inner.push(Add(body[i..i + n].to_vec())); i += n }
            let bad = c.rng.chance(2, 3);
            if bad {
                let i = c.rng.below(inner.len() + 1);
                let done = out_len(&inner[..i]) as u64;
                let n = c.rng.range(1, 9) as u16;
                let x = match c.rng.below(3) { 0 => D(c.rng.below(9) as u64, n), 1 => O(done + c.rng.below(3) as u64, n), _ => O(c.rng.interesting_u64().max(done), n) };
                inner.insert(i, x);
            }
            let mut g = h.clone();
            g.algo = 1; g.more = false;
            let mut b = head_bytes(&g);
            let s = refm::split(&mut c.rng, &inner);
            b.extend(refm::patch(&mut c.rng, &s));
            match (read(&b), bad) {
                (Some(v), false) => ensure!(v.len() == 1 && v[0] == *o, "a section compressed by the own format is not read as written: {}", show(o)),
                (None, false) => return Err(format!("a valid section compressed by the own format is refused: inner operations {}", show(&inner))),
                (Some(_), true) => return Err(format!("a section whose compressed form refers to missing data is accepted: inner operations {}", show(&inner))),
                (None, true) => {}
            }
        }
    }
    if c.rng.chance(1, 4) { // unknown method
        let mut b = section(&secs[0].0, c.rng.chance(1, 2), false);
        b[0] = b[0] & !0x38 | (c.rng.range(4, 7) as u8) << 3;
        ensure!(matches!(smdiff_decoder::reader::SectionIterator::new(Cursor::new(&b)).next(), Some(Err(_))), "a section with unknown method {} is accepted", b[0] >> 3 & 7);
    }
    Ok(())
}
