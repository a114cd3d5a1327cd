//! Wire format: integers (C04), section round trip (C03), reader consistency (C07), writer refusal (C16).
use crate::core::*;
use crate::refm::{self, *};
use smdiff_common::*;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", case: c04, quick: 8_000_000, thorough: 200_000_000, hang_s: 10, rule: "one 64-bit value / address pair / byte string per case: all boundary values 2^k+-2, then random of every magnitude; non-trivial: value above one byte" },
        Prop { id: "C03", case: c03, quick: 150_000, thorough: 3_000_000, hang_s: 20, rule: "random operation lists over all kinds, every size class boundary, extreme and descending addresses, 1-5 sections in both layouts; non-trivial: at least two operations" },
        Prop { id: "C07", case: c07, quick: 1_500_000, thorough: 8_000_000, hang_s: 20, rule: "valid multi-section streams, then one header field altered / one byte altered / cut short / random bytes, compared with an independent parser; non-trivial: altered stream" },
        Prop { id: "C16", case: c16, quick: 1_000_000, thorough: 3_000_000, hang_s: 20, rule: "operation lists with consistent or altered headers and operations beyond the limits; accepted exactly when representable; non-trivial: inconsistent or oversized" },
    ]
}
fn err<T>(s: String) -> Result<T, String> { Err(s) }
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)) } } }
pub(crate) use ensure;

fn c04(c: &mut Ctx) -> Result<(), String> {
    let (x, y) = if c.idx < 64 * 5 { let k = c.idx / 5; ((1u64 << k).wrapping_add(c.idx % 5).wrapping_sub(2), c.rng.interesting_u64()) } else { (c.rng.interesting_u64(), c.rng.interesting_u64()) };
    c.nontrivial = x >= 128;
    c.digest = x ^ y.rotate_left(17);
    c.note(|| format!("x={x:#x} y={y:#x}"));
    let tail = [c.rng.u8(), c.rng.u8()];
    // unsigned
    let mut b = vec![];
    write_u_varint(&mut b, x).map_err(|e| format!("write_u_varint({x}): {e}"))?;
    ensure!(u_varint_encode_size(x) == b.len(), "u_varint_encode_size({x}) is {} but {} bytes are written", u_varint_encode_size(x), b.len());
    ensure!(b.len() <= 10, "u-varint {x} takes {} bytes", b.len());
    let l = b.len();
    b.extend(tail);
    let mut r = Cursor::new(&b);
    let v = read_u_varint(&mut r).map_err(|e| format!("read_u_varint of {x}: {e}"))?;
    ensure!(v == x && r.position() as usize == l, "u-varint {x}: read back {v}, consumed {} of {l} bytes", r.position());
    // every proper prefix is an error
    let cut = c.rng.below(l);
    ensure!(read_u_varint(&mut Cursor::new(&b[..cut])).is_err(), "u-varint {x} cut to {cut} bytes is accepted");
    // signed
    let s = x as i64;
    ensure!(zigzag_decode(zigzag_encode(s)) == s, "zigzag({s}) comes back as {}", zigzag_decode(zigzag_encode(s)));
    let mut b = vec![];
    write_i_varint(&mut b, s).map_err(|e| e.to_string())?;
    let l = b.len();
    b.extend(tail);
    let mut r = Cursor::new(&b);
    let v = read_i_varint(&mut r).map_err(|e| format!("read_i_varint of {s}: {e}"))?;
    ensure!(v == s && r.position() as usize == l, "i-varint {s}: read back {v}, consumed {} of {l} bytes", r.position());
    // fixed width
    let mut b = vec![];
    write_u16(&mut b, x as u16).map_err(|e| e.to_string())?;
    write_u8(&mut b, y as u8).map_err(|e| e.to_string())?;
    let mut r = Cursor::new(&b);
    let (p, q) = (read_u16(&mut r).map_err(|e| e.to_string())?, read_u8(&mut r).map_err(|e| e.to_string())?);
    ensure!(p == x as u16 && q == y as u8 && b.len() == 3, "fixed width {x:#x} {y:#x}: read back {p:#x} {q:#x}");
    // addresses: through the wire, as the writer and the reader do
    let d = diff_addresses_to_i64(y, x);
    let mut b = vec![];
    write_i_varint(&mut b, d).map_err(|e| e.to_string())?;
    let d2 = read_i_varint(&mut Cursor::new(&b)).map_err(|e| e.to_string())?;
    ensure!(diff_addresses_to_u64(y, d2) == x, "address {x:#x} after {y:#x}: comes back as {:#x}", diff_addresses_to_u64(y, d2));
    // arbitrary byte strings
    let n = c.rng.range(0, 12);
    let mut z: Vec<u8> = (0..n).map(|_| if c.rng.chance(4, 5) { c.rng.u8() | 0x80 } else { c.rng.u8() & 0x7f }).collect();
    if c.rng.chance(1, 2) { z = vec![*c.rng.pick(&[0xffu8, 0x80]); 9]; z.push(c.rng.u8() & if c.rng.chance(1, 2) { 3 } else { 0xff }); if c.rng.chance(1, 3) { z.push(1) } }
    let mut val: Option<(u64, usize)> = None;
    let mut acc: u128 = 0;
    for (i, q) in z.iter().enumerate().take(18) {
        acc |= ((q & 127) as u128) << (7 * i);
        if q < &128 { if acc <= u64::MAX as u128 && i < 10 { val = Some((acc as u64, i + 1)) } break }
    }
    let mut r = Cursor::new(&z);
    match (read_u_varint(&mut r), val) {
        (Ok(v), Some((w, k))) => ensure!(v == w && r.position() as usize == k, "bytes {} denote {w}, read as {v}", hex(&z)),
        (Err(_), None) => {}
        (Ok(v), None) => return err(format!("bytes {} denote no 64-bit value but are read as {v}", hex(&z))),
        (Err(_), Some((w, _))) => return err(format!("bytes {} denote {w} but are rejected", hex(&z))),
    }
    Ok(())
}

pub fn write_section(ops: &[LOp], h: &SectionHeader) -> std::io::Result<Vec<u8>> {
    let mut o = vec![];
    smdiff_writer::write_section_header(h, &mut o)?;
    smdiff_writer::write_ops(ops, h, &mut o)?;
    Ok(o)
}
/// sections read one after another, as text
pub fn read_all<R: std::io::Read>(r: &mut R, k: usize) -> std::io::Result<Vec<u8>> {
    let mut t = String::new();
    for _ in 0..k {
        let mut buf: Vec<LOp> = vec![];
        let h = smdiff_reader::read_section(r, &mut buf)?;
        t += &format!("{h:?}{}", show(&buf.iter().map(ROp::from).collect::<Vec<_>>()));
    }
    Ok(t.into_bytes())
}
pub fn tough_read(c: &mut Ctx, b: &[u8], k: usize) -> Result<(), String> {
    let want = read_all(&mut Cursor::new(b), k).ok();
    crate::io::stress(c, 1, true, b.len(), want.as_deref(), |d| read_all(&mut crate::io::dev(Cursor::new(b), &d[0]), k)).map_err(|e| format!("reading: {e}"))
}
pub fn tough_write(c: &mut Ctx, ops: &[LOp], h: &SectionHeader, want: &[u8]) -> Result<(), String> {
    crate::io::stress(c, 1, true, want.len(), Some(want), |d| {
        let mut o = crate::io::dev(vec![], &d[0]);
        smdiff_writer::write_section_header(h, &mut o)?;
        smdiff_writer::write_ops(ops, h, &mut o)?;
        Ok(o.get())
    }).map_err(|e| format!("writing: {e}"))
}
fn c03(c: &mut Ctx) -> Result<(), String> {
    let k = c.rng.range(1, 5);
    let mut secs = vec![];
    for _ in 0..k {
        let n = match c.rng.below(8) { 0 => 0, 1 => 1, 2 => c.rng.range(120, 300), _ => c.rng.range(1, 25) };
        let mut o = wild_ops(&mut c.rng, n);
        if c.rng.chance(1, 4) { let (s, d, cn) = (c.rng.below(5000), c.rng.below(5000), c.rng.below(60)); o = refm::ops(&mut c.rng, s, d, cn, false); }
        if c.rng.chance(1, 300) { o = (0..256).map(|_| D(c.rng.interesting_u64(), 65535)).collect(); o.push(Add(vec![1; 255])) } // close to the limit
        while out_len(&o) > 16777215 { o.pop(); }
        if c.idx % 4000 == 17 { let m = c.rng.range(65_530, 70_000); o = (0..m).map(|i| if i % 3 == 1 { Add(vec![i as u8, (i >> 8) as u8]) } else { Run(i as u8, 1) }).collect(); }
        secs.push((o, c.rng.chance(1, 2)));
    }
    c.nontrivial = secs.iter().any(|s| s.0.len() > 1);
    let mut b = vec![];
    let mut ends = vec![];
    for (i, (o, seg)) in secs.iter().enumerate() {
        let h = to_head(&head_of(o, *seg, i + 1 < k));
        let built = SectionHeader::new(h.num_operations, h.num_add_bytes, h.output_size).set_compression_algo(h.compression_algo).set_format(h.format).set_more_sections(h.more_sections);
        ensure!(built == h, "the header builder gives {built:?} instead of {h:?}");
        let l: Vec<LOp> = o.iter().map(|x| x.to()).collect();
        c.note(|| format!("section {i} seg={seg} {}", show(o)));
        b.extend(write_section(&l, &h).map_err(|e| format!("writing section {i} ({}): {e}", show(o)))?);
        ends.push(b.len());
    }
    c.hash(&b);
    let total = b.len();
    b.extend([0x5a; 3]);
    let mut r = Cursor::new(&b);
    let mut buf: Vec<LOp> = vec![];
    for (i, (o, seg)) in secs.iter().enumerate() {
        let before = buf.len();
        if c.rng.chance(1, 2) { buf.clear() }
        let before = buf.len();
        let h = smdiff_reader::read_section(&mut r, &mut buf).map_err(|e| format!("reading section {i} ({}): {e}", show(o)))?;
        let got: Vec<ROp> = buf[before..].iter().map(ROp::from).collect();
        ensure!(got == *o, "section {i} (segregated={seg}): wrote {} read {}", show(o), show(&got));
        let want = head_of(o, *seg, i + 1 < k);
        ensure!(same_head(&h, &want), "section {i}: header wrote {want:?} read {h:?}");
        ensure!(r.position() as usize == ends[i], "section {i}: reader stops at {} but the section ends at {}", r.position(), ends[i]);
    }
    // the iterator over the whole stream
    let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&b));
    for (i, (o, seg)) in secs.iter().enumerate() {
        let (got, h): (Vec<ROp>, _) = if c.rng.chance(1, 2) {
            match it.next_borrowed() { Some(Ok((v, h))) => (v.iter().map(ROp::from).collect(), h), x => return err(format!("iterator section {i}: {:?}", x.map(|r| r.map(|_| ())))) }
        } else { match it.next() { Some(Ok((v, h))) => (v.iter().map(ROp::from).collect(), h), x => return err(format!("iterator section {i}: {:?}", x.map(|r| r.map(|_| ())))) } };
        ensure!(got == *o && same_head(&h, &head_of(o, *seg, i + 1 < k)), "iterator section {i}: wrote {} read {} {h:?}", show(o), show(&got));
    }
    ensure!(it.next().is_none() && it.next_borrowed().is_none(), "iterator continues after the last section");
    ensure!(it.into_inner().position() as usize == total, "iterator consumed other bytes than were written");
    tough_read(c, &b, k)?;
    let (o, seg) = &secs[0];
    let h = to_head(&head_of(o, *seg, 1 < k));
    let l: Vec<LOp> = o.iter().map(|x| x.to()).collect();
    let want = write_section(&l, &h).map_err(|e| e.to_string())?;
    tough_write(c, &l, &h, &want)
}

fn c07(c: &mut Ctx) -> Result<(), String> {
    if c.idx % 4000 == 17 { // totals that agree only modulo a power of two
        let mut o = crate::edge::far(9);
        let n = c.rng.range(0, 3);
        o.extend(wild_ops(&mut c.rng, n));
        o.push(D(5, 300));
        let seg = c.rng.chance(1, 2);
        let mut h = head_of(&o, seg, false);
        let what = c.rng.below(2);
        if what == 0 { h.size &= u32::MAX as u64; h.adds = h.adds.min(h.size) } else { o.truncate(65536); h = head_of(&o, seg, false); h.n = 0 }
        let mut b = head_bytes(&h);
        b.extend(body_bytes(&o, seg));
        c.nontrivial = true;
        c.hash(&b);
        c.note(|| format!("header {h:?} for {} operations of {} bytes", o.len(), out_len(&o)));
        let mut v = vec![];
        let r = smdiff_reader::read_section(&mut &b[..], &mut v);
        ensure!(r.is_err(), "a section of {} operations and {} bytes is accepted with header {h:?}", o.len(), out_len(&o));
        let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&b));
        ensure!(matches!(it.next(), Some(Err(_))), "a section of {} operations and {} bytes is accepted with header {h:?} (iterator)", o.len(), out_len(&o));
        return Ok(())
    }
    let k = c.rng.range(1, 3);
    let mut b = vec![];
    let mut heads = vec![];
    for i in 0..k {
        let n = c.rng.range(0, 8);
        let o = if c.rng.chance(1, 6) { wild_ops(&mut c.rng, n.min(3)) } else { refm::ops(&mut c.rng, 500, 100, n, false) };
        let seg = c.rng.chance(1, 2);
        let mut h = head_of(&o, seg, i + 1 < k);
        let mut body = body_bytes(&o, seg);
        match c.rng.below(12) {
            0 => h.n = h.n.wrapping_add(c.rng.below(5) as u64).saturating_sub(2),
            1 => h.size = (h.size + c.rng.below(5) as u64).saturating_sub(2).max(h.adds),
            2 => { let d = c.rng.below(5) as u64; h.adds = (h.adds + d).saturating_sub(2); h.size = h.size.max(h.adds) }
            3 => { let d = c.rng.range(1, 3) as u64; h.adds += d; h.size += d }
            4 => { let d = c.rng.range(1, 3) as u64; if h.adds >= d { h.adds -= d; h.size -= d } }
            5 => { if c.rng.chance(1, 2) { h.size = c.rng.u64() as u32 as u64; h.adds = h.adds.min(h.size) } else { h.n = c.rng.u64() as u32 as u64; } }
            6 => { h.size = c.rng.interesting_u64(); h.adds = h.adds.min(h.size) }
            7 => { let n = c.rng.below(body.len() + 1); body.truncate(n) }
            8 => if !body.is_empty() { let i = c.rng.below(body.len()); body[i] ^= 1 << c.rng.below(8) },
            9 => h.seg = !h.seg,
            10 => { h.size += 1 << *c.rng.pick(&[8, 16, 24, 32]); }
            _ => {}
        }
        b.extend(head_bytes(&h));
        b.extend(body);
        heads.push(h);
    }
    match c.rng.below(6) { 0 => { let n = c.rng.below(b.len() + 1); b.truncate(n) } 1 => { let n = c.rng.range(0, 40); b = c.rng.bytes(n) } 2 => if !b.is_empty() { let i = c.rng.below(b.len()); b[i] = c.rng.u8() }, _ => {} }
    c.nontrivial = true;
    c.hash(&b);
    c.note(|| format!("bytes {}", hex(&b)));
    let mut p = P { b: &b, i: 0 };
    let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&b));
    for i in 0.. {
        let want = p.section();
        let alt = c.rng.chance(1, 2);
        let got = if alt { it.next_borrowed().map(|r| r.map(|(v, h)| (v.iter().map(ROp::from).collect::<Vec<_>>(), h))) } else { it.next().map(|r| r.map(|(v, h)| (v.iter().map(ROp::from).collect::<Vec<_>>(), h))) };
        match (got, want) {
            (None, _) => return err(format!("section {i}: iterator ended before the section without continuation flag")),
            (Some(Err(_)), _) => break,
            (Some(Ok((o, h))), None) => return err(format!("section {i} is inconsistent or cut short but is accepted: header {h:?}, {}", show(&o))),
            (Some(Ok((o, h))), Some((rh, ro))) => {
                ensure!(o == ro, "section {i}: bytes denote {} but are read as {}", show(&ro), show(&o));
                ensure!(same_head(&h, &rh), "section {i}: real totals {rh:?} but header says {h:?}");
                if !rh.more { ensure!(it.next().is_none(), "reading goes on after the last section"); break }
            }
        }
    }
    tough_read(c, &b, 1)
}

fn c16(c: &mut Ctx) -> Result<(), String> {
    let n = match c.rng.below(5) { 0 => 0, 1 => 1, _ => c.rng.range(1, 12) };
    let mut o = wild_ops(&mut c.rng, n);
    let seg = c.rng.chance(1, 2);
    let mut h = head_of(&o, seg, c.rng.chance(1, 2));
    match c.rng.below(16) {
        0 => { let bump = *c.rng.pick(&[1usize, 2, 65536 - 1, 65536, 131072]); let z = 65535 + bump; o.push(Add(vec![9; z])); h = head_of(&o, seg, h.more); if c.rng.chance(1, 2) { h.size -= 65536.min(h.size - h.adds.min(h.size)); } }
        1 => { let l = *c.rng.pick(&[0u8, 63, 64, 100, 255]); o.push(refm::ROp::Run(1, l)); h = head_of(&o, seg, h.more) }
        2 => { let l = *c.rng.pick(&[65536usize, 65537, 65540, 65600, 131071]); o.push(Add(vec![1; l])); h = head_of(&o, seg, h.more); let m = l & 0xffff; h.size = h.size - l as u64 + m as u64; h.adds = h.adds - l as u64 + m as u64 }
        3 => h.n = h.n.wrapping_add(1),
        4 => h.n = h.n.saturating_sub(1),
        5 => { let d = c.rng.range(1, 70000) as u64; h.size += d }
        6 => { let d = c.rng.range(1, 300) as u64; h.size = h.size.saturating_sub(d) }
        7 => { h.adds += c.rng.range(1, 10) as u64; if c.rng.chance(1, 2) { h.size = h.size.max(h.adds) } }
        8 => h.adds = h.adds.saturating_sub(c.rng.range(1, 10) as u64),
        9 => h.algo = c.rng.u8(),
        10 if c.rng.chance(1, 20) => { // beyond / at the limit of a section
            o = (0..256).map(|i| D(i, 65535)).collect();
            let rest = 16777215 - out_len(&o);
            let extra = *c.rng.pick(&[0usize, 1, 2]);
            o.push(O(5, (rest + extra) as u16));
            h = head_of(&o, seg, false);
        }
        11 => { h.n = (o.len() as u64) | 1 << 16; }
        _ => {}
    }
    let real = head_of(&o, seg, h.more);
    let addr_ok = true;
    let ok = h.n == real.n && h.size == real.size && (!seg || h.adds == real.adds) && h.algo <= 7 && real.size <= 16777215
        && o.iter().all(|x| match x { Add(b) => b.len() <= 65535, refm::ROp::Run(_, n) => (1..=62).contains(n), _ => true });
    c.nontrivial = !ok;
    c.digest = h.n ^ h.size.rotate_left(9) ^ h.adds.rotate_left(31) ^ (o.len() as u64) << 50 ^ c.rng.clone().u64();
    c.note(|| format!("header {h:?} real {real:?} {}", show(&o)));
    if h.n > u32::MAX as u64 || h.size > u32::MAX as u64 || h.adds > u32::MAX as u64 { return Ok(()) }
    let l: Vec<LOp> = o.iter().map(|x| x.to()).collect();
    let lh = to_head(&h);
    let r = catch_unwind(AssertUnwindSafe(|| write_section(&l, &lh)));
    if let Ok(Ok(b)) = &r { tough_write(c, &l, &lh, b)? }
    match r {
        Ok(Ok(b)) => {
            ensure!(ok, "writer reports success for header {h:?} although the operations have {real:?}: {}", show(&o));
            let mut p = P { b: &b, i: 0 };
            match p.section() {
                Some((rh, ro)) => { ensure!(ro == o && p.i == b.len(), "writer reports success but the section reads as {} instead of {}", show(&ro), show(&o)); ensure!(rh.algo == h.algo && rh.more == h.more && rh.seg == seg, "header {h:?} written as {rh:?}") }
                None => return err(format!("writer reports success but the section can not be read: {}", show(&o))),
            }
        }
        Ok(Err(e)) => ensure!(!ok, "writer refuses a representable section ({e}): {h:?} {}", show(&o)),
        Err(_) => ensure!(!ok, "writer panics on a representable section: {h:?} {}", show(&o)),
    }
    Ok(())
}
pub use crate::refm::ROp::*;
