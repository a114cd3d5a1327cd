// Converting VCDIFF patches (C13).
pub mod smdiff_vcdiff {
use vstd::prelude::*;
use std::io::{Read, Seek, Write};
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::*;
use crate::smdiff_common::{Copy, CopySrc, Run, MAX_WIN_SIZE, MAX_RUN_LEN};
use crate::format::*;
use crate::patch::*;
use crate::op_lemmas::*;
use crate::sections::*;
use crate::th_sections::*;
use crate::smdiff_writer::*;
use crate::reader::{packed, is_csec, is_csec_at, is_data, stands_for, holds_body};
use crate::smdiff_encoder::*;
use crate::vcdiff_common::*;
use crate::vcdiff_reader::*;
verus! {

//@item smdiff-vcdiff/src/lib.rs const MAX_INST_SIZE
const MAX_INST_SIZE: u32 = u16::MAX as u32;
//@end
//@item smdiff-vcdiff/src/lib.rs type Op
type Op = smdiff_common::Op<Add>;
//@end
//@item smdiff-vcdiff/src/lib.rs struct Add
#[derive(Clone, Debug, PartialEq, Eq)]
struct Add{
    bytes: Vec<u8>,
}
//@end
impl AddOp for Add {
    open spec fn view(&self) -> Seq<u8> { self.bytes@ }
//@item smdiff-vcdiff/src/lib.rs impl AddOp for Add / fn bytes
    fn bytes(&self) -> &[u8] {
        &self.bytes
    }
//@end
}

// ---------------------------------------------------------------- what VCDIFF instructions describe
pub open spec fn rep(b: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| b) }
/// opening a window (position of its source segment, and whether that is in the output), an instruction, the end of a window
pub enum Item { Open(Option<u64>, bool), Inst(Inst), Close }
pub struct VState { pub ssp: Option<u64>, pub trgt: bool, pub open: bool, pub out: Seq<u8> }
pub open spec fn ilen(i: Inst) -> int {
    match i { Inst::Add(a) => a.len as int, Inst::Run(r) => r.len as int, Inst::Copy(c) => match c.copy_type { CopyType::CopyQ { len_o } => len_o as int, _ => c.len as int } }
}
/// the bytes an instruction appends to the output
pub open spec fn inst_out(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, d: Option<Seq<u8>>, out: Seq<u8>) -> Option<Seq<u8>> {
    match i {
        Inst::Add(a) => if a.p_pos + a.len <= file.len() { Some(file.subrange(a.p_pos as int, a.p_pos + a.len)) } else { None },
        Inst::Run(r) => Some(rep(r.byte, r.len as int)),
        Inst::Copy(c) => match c.copy_type {
            // from the source segment: of the source, or of the output
            CopyType::CopyS => match (ssp, if trgt { Some(out) } else { d }) {
                (Some(p), Some(s)) => if p + c.u_pos + c.len <= s.len() { Some(s.subrange(p + c.u_pos, p + c.u_pos + c.len)) } else { None },
                _ => None,
            },
            // from the output of this window
            CopyType::CopyT { inst_u_pos_start } => {
                let k = inst_u_pos_start - c.u_pos;
                if c.len <= k <= out.len() { Some(out.subrange(out.len() - k, out.len() - k + c.len)) } else { None }
            },
            // of the len bytes the library counts those before the end of the output too: these are repeated
            CopyType::CopyQ { len_o } => {
                let k = c.len - len_o;
                if 1 <= k <= out.len() { Some(Seq::new(len_o as nat, |i: int| out[out.len() - k + i % k])) } else { None }
            },
        },
    }
}
pub open spec fn vrun(v: Seq<Item>, file: Seq<u8>, d: Option<Seq<u8>>) -> Option<VState>
    decreases v.len()
{
    if v.len() == 0 { Some(VState { ssp: None, trgt: false, open: false, out: Seq::empty() }) } else {
        match vrun(v.drop_last(), file, d) {
            None => None,
            Some(s) => match v.last() {
                Item::Open(ssp, trgt) => if s.open { None } else { Some(VState { ssp, trgt, open: true, out: s.out }) },
                Item::Close => if s.open { Some(VState { ssp: None, trgt: false, open: false, out: s.out }) } else { None },
                Item::Inst(i) => if !s.open { None } else { match inst_out(i, file, s.ssp, s.trgt, d, s.out) { None => None, Some(b) => Some(VState { ssp: s.ssp, trgt: s.trgt, open: true, out: s.out + b }) } },
            }
        }
    }
}
pub open spec fn items_of(m: VCDiffReadMsg) -> Seq<Item> {
    match m {
        VCDiffReadMsg::WindowSummary(ws) => seq![Item::Open(ws.source_segment_position, ws.win_indicator is VCD_TARGET)],
        VCDiffReadMsg::Inst { first, second } => match second { Some(i) => seq![Item::Inst(first), Item::Inst(i)], None => seq![Item::Inst(first)] },
        VCDiffReadMsg::EndOfWindow => seq![Item::Close],
        VCDiffReadMsg::EndOfFile => Seq::empty(),
    }
}
pub open spec fn items(m: Seq<VCDiffReadMsg>) -> Seq<Item>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { items(m.drop_last()) + items_of(m.last()) } }
/// the patch in the file describes the target t for the source d
pub open spec fn vcd_means(file: Seq<u8>, d: Option<Seq<u8>>, t: Seq<u8>) -> bool {
    match vcd_script(file) { Some(m) => match vrun(items(m), file, d) { Some(s) => s.out == t, None => false }, None => false }
}
/// the patch describes something, of a size that can be handled
pub open spec fn convertible(file: Seq<u8>) -> bool { exists|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] vcd_means(file, d, t) && t.len() <= i64::MAX && real_src(d).len() <= i64::MAX }
pub open spec fn as_written() -> EncoderConfig {
    EncoderConfig { match_src: None, match_trgt: None, sec_comp: None, format: Format::Interleaved, output_segment_size: 16777215, naive_tests: None, lazy_escape_len: None }
}
/// what was appended is a patch that produces what the VCDIFF patch describes
pub open spec fn converted<W: Write>(file: Seq<u8>, w0: W, w1: W, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>) -> bool {
    laid_out(z, zs, as_written()) && flat_ops(zs) == ops && neat(ops) && w1.written() == w0.written() + z && converts(file, ops)
}
pub open spec fn converts(file: Seq<u8>, ops: Seq<SOp>) -> bool { forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] vcd_means(file, d, t) ==> yields(ops, d, t) }

// ---------------------------------------------------------------- the state of the conversion
/// sections written, operations so far
#[verifier::ext_equal]
pub ghost struct VG { pub z: Seq<u8>, pub secs: Seq<Sec>, pub ops: Seq<SOp> }
#[verifier::opaque]
pub open spec fn st_ok(g: VG, cur: Seq<SOp>, size: int, nadd: int) -> bool {
    &&& is_secs(packed(), g.z, g.secs, false) && is_secs(plain(), g.z, g.secs, false) && flat_ops(g.secs) + cur == g.ops && neat(g.ops)
    &&& total(cur) == size <= 16777215 && adds(cur).len() == nadd
    &&& forall|i: int| 0 <= i < g.secs.len() ==> sec_fits(#[trigger] g.secs[i], as_written())
}
pub proof fn lemma_st_start()
    ensures st_ok(VG { z: Seq::empty(), secs: Seq::empty(), ops: Seq::empty() }, Seq::empty(), 0, 0)
{ reveal(st_ok); assert(Seq::<SOp>::empty() + Seq::<SOp>::empty() =~= Seq::<SOp>::empty()); }
pub proof fn lemma_st_bounds(g: VG, cur: Seq<SOp>, size: int, nadd: int)
    requires st_ok(g, cur, size, nadd)
    ensures 0 <= nadd <= size <= 16777215
{ reveal(st_ok); lemma_adds_le(cur); }
proof fn lemma_adds_le(ops: Seq<SOp>)
    ensures adds(ops).len() <= total(ops)
    decreases ops.len()
{ if ops.len() > 0 { lemma_adds_le(ops.drop_last()); } }
pub proof fn lemma_st_push(g: VG, cur: Seq<SOp>, size: int, nadd: int, x: SOp)
    requires st_ok(g, cur, size, nadd), op_ok(x), slen(x) >= 1, size + slen(x) <= 16777215
    ensures st_ok(VG { z: g.z, secs: g.secs, ops: g.ops.push(x) }, cur.push(x), size + slen(x), nadd + sadd(x).len())
{
    reveal(st_ok);
    lemma_total_push(cur, x);
    assert(flat_ops(g.secs) + cur.push(x) =~= g.ops.push(x));
    assert forall|i: int| 0 <= i < g.ops.push(x).len() implies op_ok(#[trigger] g.ops.push(x)[i]) && slen(g.ops.push(x)[i]) >= 1 by { if i < g.ops.len() { assert(op_ok(g.ops[i]) && slen(g.ops[i]) >= 1); } }
}
/// the header of the section that is written next
pub open spec fn next_header(h: SectionHeader, n: nat, size: int, nadd: int) -> bool {
    h.num_operations as nat == n as u32 as nat && h.num_add_bytes == nadd && h.output_size == size && h.compression_algo == 0 && h.format is Interleaved
}
pub proof fn lemma_st_header(g: VG, cur: Seq<Op>, size: int, nadd: int, h: SectionHeader)
    requires st_ok(g, sops(cur), size, nadd), next_header(h, cur.len(), size, nadd)
    ensures describes(h, cur), ops_ok(sops(cur))
{
    reveal(st_ok);
    let c = sops(cur); let m = flat_ops(g.secs).len() as int;
    assert forall|i: int| 0 <= i < c.len() implies op_ok(#[trigger] c[i]) && slen(c[i]) >= 1 by { assert(c[i] == g.ops[m + i]); assert(op_ok(g.ops[m + i]) && slen(g.ops[m + i]) >= 1); }
    lemma_count_bound(c);
}
pub open spec fn head_written<W: Write>(w0: W, w1: W, h: SectionHeader) -> bool { exists|s: Seq<u8>| is_head(s, shead(h)) && w1.written() == #[trigger] (w0.written() + s) }
pub open spec fn body_written<W: Write>(w0: W, w1: W, h: SectionHeader, ops: Seq<Op>) -> bool { exists|s: Seq<u8>| is_body(s, sops(ops), h.format is Interleaved) && w1.written() == #[trigger] (w0.written() + s) }
proof fn lemma_written<W: Write>(g: VG, cur: Seq<Op>, size: int, nadd: int, h: SectionHeader, w0: W, wb: W, wm: W, wa: W) -> (q: VG)
    requires st_ok(g, sops(cur), size, nadd), next_header(h, cur.len(), size, nadd), head_written(wb, wm, h), body_written(wm, wa, h, cur), wb.written() == w0.written() + g.z
    ensures is_secs(packed(), q.z, q.secs, !h.more_sections), is_secs(plain(), q.z, q.secs, !h.more_sections), flat_ops(q.secs) == g.ops, q.ops == g.ops, neat(g.ops), wa.written() == w0.written() + q.z,
        forall|i: int| 0 <= i < q.secs.len() ==> sec_fits(#[trigger] q.secs[i], as_written()),
{
    hide(is_secs); hide(is_head); hide(is_body); hide(is_csec); hide(is_csec_at); hide(neat); hide(describes); hide(adds);
    lemma_st_header(g, cur, size, nadd, h);
    let hb = choose|s: Seq<u8>| is_head(s, shead(h)) && wm.written() == #[trigger] (wb.written() + s);
    let d = choose|s: Seq<u8>| is_body(s, sops(cur), h.format is Interleaved) && wa.written() == #[trigger] (wm.written() + s);
    reveal(stands_for); assert(stands_for(0, d, d));
    lemma_sec_done(wb, wa, hb, d, d, h, h, None, cur);
    let s = choose|s: Seq<u8>| #[trigger] sec_written(s, h, None, cur) && wa.written() == wb.written() + s;
    let x = Sec { h: written_head(h, None, cur), ops: sops(cur) };
    reveal(st_ok);
    lemma_secs_push(packed(), g.z, g.secs, s, x);
    lemma_secs_push(plain(), g.z, g.secs, s, x);
    let q = VG { z: g.z + s, secs: g.secs.push(x), ops: g.ops };
    assert(wa.written() =~= w0.written() + q.z);
    assert forall|i: int| 0 <= i < q.secs.len() implies sec_fits(#[trigger] q.secs[i], as_written()) by { if i < g.secs.len() { assert(sec_fits(g.secs[i], as_written())); } }
    q
}
pub proof fn lemma_flushed<W: Write>(g: VG, cur: Seq<Op>, size: int, nadd: int, h: SectionHeader, w0: W, wb: W, wm: W, wa: W) -> (q: VG)
    requires st_ok(g, sops(cur), size, nadd), next_header(h, cur.len(), size, nadd), h.more_sections, head_written(wb, wm, h), body_written(wm, wa, h, cur), wb.written() == w0.written() + g.z
    ensures st_ok(q, Seq::empty(), 0, 0), q.ops == g.ops, wa.written() == w0.written() + q.z
{
    let q = lemma_written(g, cur, size, nadd, h, w0, wb, wm, wa);
    reveal(st_ok);
    assert(flat_ops(q.secs) + Seq::<SOp>::empty() =~= q.ops);
    q
}
pub proof fn lemma_finished<W: Write>(g: VG, cur: Seq<Op>, size: int, nadd: int, h: SectionHeader, w0: W, wb: W, wm: W, wa: W) -> (q: VG)
    requires st_ok(g, sops(cur), size, nadd), next_header(h, cur.len(), size, nadd), !h.more_sections, head_written(wb, wm, h), body_written(wm, wa, h, cur), wb.written() == w0.written() + g.z
    ensures laid_out(q.z, q.secs, as_written()), flat_ops(q.secs) == g.ops, neat(g.ops), wa.written() == w0.written() + q.z
{ lemma_written(g, cur, size, nadd, h, w0, wb, wm, wa) }

// ---------------------------------------------------------------- what the operations produce
/// after the items v: the window is as the variables say, and the operations produce what the items describe
#[verifier::opaque]
pub open spec fn agrees(v: Seq<Item>, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, ops: Seq<SOp>) -> bool {
    forall|d: Option<Seq<u8>>| (#[trigger] vrun(v, file, d)) matches Some(s) ==> s.ssp == ssp && s.trgt == trgt && (!s.open ==> !trgt) && s.out.len() == pos && yields(ops, d, s.out)
}
pub proof fn lemma_agrees_start(file: Seq<u8>) ensures agrees(Seq::empty(), file, None, false, 0, Seq::empty()) { reveal(agrees); }
proof fn lemma_vrun_push(v: Seq<Item>, i: Item, file: Seq<u8>, d: Option<Seq<u8>>)
    ensures vrun(v.push(i), file, d) == (match vrun(v, file, d) {
            None => None,
            Some(s) => match i {
                Item::Open(ssp, trgt) => if s.open { None } else { Some(VState { ssp, trgt, open: true, out: s.out }) },
                Item::Close => if s.open { Some(VState { ssp: None, trgt: false, open: false, out: s.out }) } else { None },
                Item::Inst(i) => if !s.open { None } else { match inst_out(i, file, s.ssp, s.trgt, d, s.out) { None => None, Some(b) => Some(VState { ssp: s.ssp, trgt: s.trgt, open: true, out: s.out + b }) } },
            }
        })
{ assert(v.push(i).drop_last() =~= v); }
pub proof fn lemma_agrees_open(v: Seq<Item>, file: Seq<u8>, ssp0: Option<u64>, trgt0: bool, ssp: Option<u64>, trgt: bool, pos: int, ops: Seq<SOp>, ws: WindowSummary)
    requires agrees(v, file, ssp0, trgt0, pos, ops), ssp == ws.source_segment_position, trgt == (ws.win_indicator is VCD_TARGET) || trgt == (trgt0 || ws.win_indicator is VCD_TARGET)
    ensures agrees(v + items_of(VCDiffReadMsg::WindowSummary(ws)), file, ssp, trgt, pos, ops)
{
    reveal(agrees);
    let i = Item::Open(ws.source_segment_position, ws.win_indicator is VCD_TARGET);
    assert(v + items_of(VCDiffReadMsg::WindowSummary(ws)) =~= v.push(i));
    assert forall|d: Option<Seq<u8>>| (#[trigger] vrun(v.push(i), file, d)) matches Some(s) ==> s.ssp == ssp && s.trgt == trgt && (!s.open ==> !trgt) && s.out.len() == pos && yields(ops, d, s.out) by { lemma_vrun_push(v, i, file, d); }
}
pub proof fn lemma_agrees_close(v: Seq<Item>, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, ops: Seq<SOp>)
    requires agrees(v, file, ssp, trgt, pos, ops)
    ensures agrees(v + items_of(VCDiffReadMsg::EndOfWindow), file, None, false, pos, ops)
{
    reveal(agrees);
    let i = Item::Close;
    assert(v + items_of(VCDiffReadMsg::EndOfWindow) =~= v.push(i));
    assert forall|d: Option<Seq<u8>>| (#[trigger] vrun(v.push(i), file, d)) matches Some(s) ==> s.ssp == None::<u64> && s.trgt == false && (!s.open ==> true) && s.out.len() == pos && yields(ops, d, s.out) by { lemma_vrun_push(v, i, file, d); }
}
pub proof fn lemma_items_start(m: Seq<VCDiffReadMsg>) ensures items(m.take(0)) == Seq::<Item>::empty() { }
pub open spec fn is_prefix(v: Seq<Item>, w: Seq<Item>) -> bool { v.len() <= w.len() && v == w.take(v.len() as int) }
pub proof fn lemma_items(m: Seq<VCDiffReadMsg>, k: int)
    requires 0 <= k <= m.len()
    ensures is_prefix(items(m.take(k)), items(m)), k < m.len() ==> items(m.take(k + 1)) == items(m.take(k)) + items_of(m[k]) && is_prefix(items(m.take(k + 1)), items(m)), k == m.len() ==> items(m.take(k)) == items(m)
    decreases m.len() - k
{
    if k == m.len() { assert(m.take(k) =~= m); assert(items(m).take(items(m).len() as int) =~= items(m)); }
    else {
        lemma_items(m, k + 1);
        assert(m.take(k + 1).drop_last() =~= m.take(k));
        assert(m.take(k + 1).last() == m[k]);
        let a = items(m.take(k)); let b = items(m.take(k + 1));
        assert(a =~= items(m).take(a.len() as int)) by { assert(a =~= b.take(a.len() as int)); }
    }
}
pub open spec fn insts_of(v: Seq<Option<Inst>>) -> Seq<Item>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { match v.last() { Some(i) => insts_of(v.drop_last()).push(Item::Inst(i)), None => insts_of(v.drop_last()) } } }
pub proof fn lemma_two_insts(first: Inst, second: Option<Inst>)
    ensures insts_of(seq![Some(first), second]) == items_of(VCDiffReadMsg::Inst { first, second }), insts_of(seq![Some(first), second].take(0)) == Seq::<Item>::empty(), seq![Some(first), second].skip(0) == seq![Some(first), second], seq![Some(first), second].take(2) == seq![Some(first), second]
{
    let v = seq![Some(first), second];
    assert(v.drop_last() =~= seq![Some(first)]);
    assert(v.drop_last().drop_last() =~= Seq::empty());
    reveal_with_fuel(insts_of, 3);
    assert(v.take(2) =~= v); assert(v.skip(0) =~= v);
    assert(insts_of(v) =~= items_of(VCDiffReadMsg::Inst { first, second }));
}
pub proof fn lemma_insts_of(v: Seq<Option<Inst>>, j: int)
    requires 0 <= j <= v.len()
    ensures j < v.len() ==> insts_of(v.take(j + 1)) == (match v[j] { Some(i) => insts_of(v.take(j)).push(Item::Inst(i)), None => insts_of(v.take(j)) }) && v.skip(j).len() > 0 && v.skip(j)[0] == v[j] && v.skip(j).skip(1) == v.skip(j + 1),
        is_prefix(insts_of(v.take(j)), insts_of(v)), v.take(v.len() as int) == v, v.skip(v.len() as int).len() == 0,
    decreases v.len() - j
{
    assert(v.take(v.len() as int) =~= v);
    if j < v.len() {
        lemma_insts_of(v, j + 1);
        assert(v.take(j + 1).drop_last() =~= v.take(j));
        assert(v.skip(j).skip(1) =~= v.skip(j + 1));
        let a = insts_of(v.take(j)); let b = insts_of(v.take(j + 1));
        assert(a =~= insts_of(v).take(a.len() as int)) by { assert(a =~= b.take(a.len() as int)); }
    } else { assert(insts_of(v).take(insts_of(v).len() as int) =~= insts_of(v)); }
}
pub proof fn lemma_window(v: Seq<Item>, k: int, todo: Seq<Option<Inst>>, j: int, i: Inst, before: Seq<Item>, after: Seq<Item>, all: Seq<Item>)
    requires 0 <= j < todo.len(), v == before + insts_of(todo.take(j)), todo[j] == Some(i), after == before + insts_of(todo), is_prefix(after, all)
    ensures is_prefix(v + seq![Item::Inst(i)], all)
{
    lemma_insts_of(todo, j); lemma_insts_of(todo, j + 1);
    let b = insts_of(todo.take(j + 1)); let w = v + seq![Item::Inst(i)];
    assert(w =~= before + b);
    assert(w =~= after.take(w.len() as int)) by { assert(b == insts_of(todo).take(b.len() as int)); }
    assert(w =~= all.take(w.len() as int));
}
/// there is a source for which all of it describes something
#[verifier::opaque]
pub open spec fn witness(all: Seq<Item>, file: Seq<u8>, d: Option<Seq<u8>>) -> bool { (vrun(all, file, d) matches Some(s) && s.out.len() <= i64::MAX) && real_src(d).len() <= i64::MAX }
proof fn lemma_vrun_take(v: Seq<Item>, n: int, file: Seq<u8>, d: Option<Seq<u8>>)
    requires vrun(v, file, d) is Some, 0 <= n <= v.len()
    ensures vrun(v.take(n), file, d) is Some, vrun(v.take(n), file, d)->0.out.len() <= vrun(v, file, d)->0.out.len()
    decreases v.len() - n
{
    if n == v.len() { assert(v.take(n) =~= v); }
    else {
        lemma_vrun_take(v, n + 1, file, d);
        assert(v.take(n + 1) =~= v.take(n).push(v[n]));
        lemma_vrun_push(v.take(n), v[n], file, d);
    }
}
/// ... so what comes before does too
pub proof fn lemma_witness(all: Seq<Item>, v: Seq<Item>, w: Seq<Item>, file: Seq<u8>, d: Option<Seq<u8>>)
    requires witness(all, file, d), is_prefix(v + w, all)
    ensures witness(v, file, d), witness(v + w, file, d)
{
    reveal(witness);
    let x = v + w;
    lemma_vrun_take(all, x.len() as int, file, d);
    lemma_vrun_take(all, v.len() as int, file, d);
    assert(all.take(v.len() as int) =~= v) by { assert(x.take(v.len() as int) =~= v); }
}
/// the instruction describes something at this place
#[verifier::opaque]
pub open spec fn fits(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, d: Option<Seq<u8>>) -> bool {
    exists|o: Seq<u8>| (#[trigger] inst_out(i, file, ssp, trgt, d, o)) is Some && o.len() == pos && pos + ilen(i) <= i64::MAX && real_src(d).len() <= i64::MAX
}
proof fn lemma_ilen(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, d: Option<Seq<u8>>, o: Seq<u8>)
    ensures inst_out(i, file, ssp, trgt, d, o) matches Some(b) ==> b.len() == ilen(i)
{ }
pub proof fn lemma_inst(v: Seq<Item>, i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, ops: Seq<SOp>, d: Option<Seq<u8>>)
    requires agrees(v, file, ssp, trgt, pos, ops), witness(v, file, d), witness(v + seq![Item::Inst(i)], file, d)
    ensures fits(i, file, ssp, trgt, pos, d)
{
    reveal(agrees); reveal(witness); reveal(fits);
    assert(v + seq![Item::Inst(i)] =~= v.push(Item::Inst(i)));
    lemma_vrun_push(v, Item::Inst(i), file, d);
    let s = vrun(v, file, d)->0;
    lemma_ilen(i, file, ssp, trgt, d, s.out);
    assert(inst_out(i, file, ssp, trgt, d, s.out) is Some);
}
/// the first p bytes of the instruction are there
#[verifier::opaque]
pub open spec fn partly(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, ops0: Seq<SOp>, ops: Seq<SOp>, p: int) -> bool {
    forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(ops0, d, o) && o.len() == pos ==> (inst_out(i, file, ssp, trgt, d, o) matches Some(b) ==> 0 <= p <= b.len() && yields(ops, d, o + b.take(p)))
}
pub proof fn lemma_part_start(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, ops: Seq<SOp>)
    ensures partly(i, file, ssp, trgt, pos, ops, ops, 0)
{
    reveal(partly);
    assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(ops, d, o) && o.len() == pos implies (inst_out(i, file, ssp, trgt, d, o) matches Some(b) ==> yields(ops, d, o + b.take(0))) by {
        if inst_out(i, file, ssp, trgt, d, o) is Some { let b = inst_out(i, file, ssp, trgt, d, o)->0; assert(o + b.take(0) =~= o); }
    }
}
/// x produces n bytes of the instruction after the first p
#[verifier::opaque]
pub open spec fn piece(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, x: SOp, p: int, n: int) -> bool {
    forall|d: Option<Seq<u8>>, o: Seq<u8>| o.len() == pos ==> ((#[trigger] inst_out(i, file, ssp, trgt, d, o)) matches Some(b) ==> p + n <= b.len() && op_out(x, d, o + b.take(p)) == Some(b.subrange(p, p + n)))
}
pub proof fn lemma_part_push(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, ops0: Seq<SOp>, ops: Seq<SOp>, x: SOp, p: int, n: int)
    requires partly(i, file, ssp, trgt, pos, ops0, ops, p), piece(i, file, ssp, trgt, pos, x, p, n), n >= 0
    ensures partly(i, file, ssp, trgt, pos, ops0, ops.push(x), p + n)
{
    reveal(partly); reveal(piece);
    assert(ops.push(x).drop_last() =~= ops);
    assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(ops0, d, o) && o.len() == pos implies (inst_out(i, file, ssp, trgt, d, o) matches Some(b) ==> 0 <= p + n <= b.len() && yields(ops.push(x), d, o + b.take(p + n))) by {
        if inst_out(i, file, ssp, trgt, d, o) is Some {
            let b = inst_out(i, file, ssp, trgt, d, o)->0;
            assert(o + b.take(p) + b.subrange(p, p + n) =~= o + b.take(p + n));
        }
    }
}
pub proof fn lemma_part_end(v: Seq<Item>, i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, ops0: Seq<SOp>, ops: Seq<SOp>)
    requires agrees(v, file, ssp, trgt, pos, ops0), partly(i, file, ssp, trgt, pos, ops0, ops, ilen(i))
    ensures agrees(v.push(Item::Inst(i)), file, ssp, trgt, pos + ilen(i), ops)
{
    reveal(agrees); reveal(partly);
    let w = v.push(Item::Inst(i));
    assert forall|d: Option<Seq<u8>>| (#[trigger] vrun(w, file, d)) matches Some(s) ==> s.ssp == ssp && s.trgt == trgt && (!s.open ==> !trgt) && s.out.len() == pos + ilen(i) && yields(ops, d, s.out) by {
        lemma_vrun_push(v, Item::Inst(i), file, d);
        if vrun(w, file, d) is Some {
            let s = vrun(v, file, d)->0;
            assert(yields(ops0, d, s.out));
            let b = inst_out(i, file, ssp, trgt, d, s.out)->0;
            lemma_ilen(i, file, ssp, trgt, d, s.out);
            assert(b.take(ilen(i)) =~= b);
        }
    }
}
pub proof fn lemma_add_fits(a: ADD, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, d: Option<Seq<u8>>)
    requires fits(Inst::Add(a), file, ssp, trgt, pos, d)
    ensures a.p_pos + a.len <= file.len(), pos + a.len <= i64::MAX
{ reveal(fits); }
pub proof fn lemma_piece_add(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, x: SOp, p: int, n: int)
    requires i matches Inst::Add(a) && x matches SOp::Add { bytes } && 0 <= p && 0 <= n && p + n <= a.len && a.p_pos + a.len <= file.len() && bytes == file.subrange(a.p_pos + p, a.p_pos + p + n)
    ensures piece(i, file, ssp, trgt, pos, x, p, n)
{
    reveal(piece);
    assert forall|d: Option<Seq<u8>>, o: Seq<u8>| o.len() == pos implies ((#[trigger] inst_out(i, file, ssp, trgt, d, o)) matches Some(b) ==> p + n <= b.len() && op_out(x, d, o + b.take(p)) == Some(b.subrange(p, p + n))) by {
        let b = inst_out(i, file, ssp, trgt, d, o)->0;
        assert(op_out(x, d, o + b.take(p))->0 =~= b.subrange(p, p + n));
    }
}
pub proof fn lemma_run_fits(a: RUN, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, d: Option<Seq<u8>>)
    requires fits(Inst::Run(a), file, ssp, trgt, pos, d)
    ensures pos + a.len <= i64::MAX
{ reveal(fits); }
pub proof fn lemma_piece_run(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, x: SOp, p: int, n: int)
    requires i matches Inst::Run(a) && x matches SOp::Run { byte, len } && 0 <= p && p + n <= a.len && byte == a.byte && len == n
    ensures piece(i, file, ssp, trgt, pos, x, p, n)
{
    reveal(piece);
    assert forall|d: Option<Seq<u8>>, o: Seq<u8>| o.len() == pos implies ((#[trigger] inst_out(i, file, ssp, trgt, d, o)) matches Some(b) ==> p + n <= b.len() && op_out(x, d, o + b.take(p)) == Some(b.subrange(p, p + n))) by {
        let b = inst_out(i, file, ssp, trgt, d, o)->0;
        assert(op_out(x, d, o + b.take(p))->0 =~= b.subrange(p, p + n));
    }
}
/// where the copy begins
pub open spec fn at_addr(c: COPY, ssp: Option<u64>, trgt: bool, pos: int, dict: bool, addr: int) -> bool {
    match c.copy_type {
        CopyType::CopyS => (ssp matches Some(p) && addr == p + c.u_pos) && dict == !trgt,
        CopyType::CopyT { inst_u_pos_start } => addr == pos - (inst_u_pos_start - c.u_pos) && !dict,
        CopyType::CopyQ { len_o } => addr == pos - (c.len - len_o) && !dict,
    }
}
pub proof fn lemma_copy_fits(c: COPY, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, d: Option<Seq<u8>>)
    requires fits(Inst::Copy(c), file, ssp, trgt, pos, d)
    ensures
        pos + ilen(Inst::Copy(c)) <= i64::MAX,
        c.copy_type is CopyS ==> ssp is Some && ssp->0 + c.u_pos + c.len <= i64::MAX,
        c.copy_type matches CopyType::CopyT { inst_u_pos_start } ==> c.len <= inst_u_pos_start - c.u_pos <= pos,
        c.copy_type matches CopyType::CopyQ { len_o } ==> 1 <= c.len - len_o <= pos,
{ reveal(fits); }
pub proof fn lemma_piece_c(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, x: SOp, p: int, n: int)
    requires i matches Inst::Copy(c) && x matches SOp::Copy { dict, addr, len } && 0 <= p && 1 <= n && p + n <= c.len && len == n && !(c.copy_type is CopyQ) && at_addr(c, ssp, trgt, pos, dict, addr - p)
    ensures piece(i, file, ssp, trgt, pos, x, p, n)
{
    reveal(piece);
    assert forall|d: Option<Seq<u8>>, o: Seq<u8>| o.len() == pos implies ((#[trigger] inst_out(i, file, ssp, trgt, d, o)) matches Some(b) ==> p + n <= b.len() && op_out(x, d, o + b.take(p)) == Some(b.subrange(p, p + n))) by {
        if inst_out(i, file, ssp, trgt, d, o) is Some {
            let b = inst_out(i, file, ssp, trgt, d, o)->0;
            assert(op_out(x, d, o + b.take(p)) is Some);
            assert(op_out(x, d, o + b.take(p))->0 =~= b.subrange(p, p + n));
        }
    }
}
pub proof fn lemma_piece_q(i: Inst, file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, x: SOp, p: int, n: int)
    requires i matches Inst::Copy(c) && (c.copy_type matches CopyType::CopyQ { len_o } && x matches SOp::Copy { dict, addr, len } && !dict && 0 <= p && 1 <= n <= c.len - len_o && p + n <= len_o && len == n && addr == pos - (c.len - len_o) + p % (c.len - len_o))
    ensures piece(i, file, ssp, trgt, pos, x, p, n)
{
    reveal(piece);
    let c = i->Copy_0; let len_o = c.copy_type->CopyQ_len_o; let k = c.len - len_o; let addr = x->addr;
    assert forall|d: Option<Seq<u8>>, o: Seq<u8>| o.len() == pos implies ((#[trigger] inst_out(i, file, ssp, trgt, d, o)) matches Some(b) ==> p + n <= b.len() && op_out(x, d, o + b.take(p)) == Some(b.subrange(p, p + n))) by {
        if inst_out(i, file, ssp, trgt, d, o) is Some {
            let b = inst_out(i, file, ssp, trgt, d, o)->0;
            let q = o + b.take(p); let m = p % k;
            assert(0 <= m <= p) by { vstd::arithmetic::div_mod::lemma_mod_decreases(p as nat, k as nat); }
            assert(addr + n <= q.len());
            assert forall|j: int| 0 <= j < n implies #[trigger] q[addr + j] == b[p + j] by {
                assert((p + j) % k == (m + j) % k) by { vstd::arithmetic::div_mod::lemma_add_mod_noop(p, j, k); vstd::arithmetic::div_mod::lemma_add_mod_noop(m, j, k); vstd::arithmetic::div_mod::lemma_mod_twice(p, k); }
                if m + j < k { vstd::arithmetic::div_mod::lemma_small_mod((m + j) as nat, k as nat); assert(q[addr + j] == o[pos - k + m + j]); }
                else {
                    let e = m + j - k;
                    assert(e < k && e < p);
                    vstd::arithmetic::div_mod::lemma_small_mod(e as nat, k as nat);
                    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(e, k);
                    assert(q[addr + j] == b[e]);
                }
            }
            assert(q.subrange(addr as int, addr + n).len() == n && b.subrange(p, p + n).len() == n);
            assert forall|j: int| 0 <= j < n implies #[trigger] q.subrange(addr as int, addr + n)[j] == b.subrange(p, p + n)[j] by { assert(q[addr + j] == b[p + j]); }
            assert(q.subrange(addr as int, addr + n) =~= b.subrange(p, p + n));
        }
    }
}
pub proof fn lemma_converted(file: Seq<u8>, ssp: Option<u64>, trgt: bool, pos: int, ops: Seq<SOp>)
    requires vcd_script(file) matches Some(m) && agrees(items(m), file, ssp, trgt, pos, ops)
    ensures converts(file, ops)
{ reveal(agrees); }

#[verifier::rlimit(400)]
//@item smdiff-vcdiff/src/lib.rs fn convert_vcdiff_to_smdiff
fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader: R, mut writer: W) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    requires reader.rreliable(), convertible(reader.rdata())
    ensures
        r.is_ok() ==> exists|w: W, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>| #[trigger] converted(reader.rdata(), writer, w, ops, z, zs),
        writer.wreliable() ==> r.is_ok(),
/*-*/ {
    /*+*/ hide(is_secs); hide(neat); hide(sec_written); hide(describes); hide(total); hide(adds); hide(laid_out); hide(inst_out); hide(vrun); hide(items);
    let ghost file = reader.rdata(); let ghost w0 = writer; let ghost sc = vcd_script(file)->0; let ghost all = items(sc);
    let ghost x0 = choose|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] vcd_means(file, d, t) && t.len() <= i64::MAX && real_src(d).len() <= i64::MAX; let ghost d0 = x0.0;
    let ghost mut g = VG { z: Seq::empty(), secs: Seq::empty(), ops: Seq::empty() }; let ghost mut v: Seq<Item> = Seq::empty(); /*-*/
    let mut cur_win = Vec::new();
    let mut reader = VCDReader::new(reader)?;
    let mut ssp = None;
    let mut vcd_trgt = false;
    let mut cur_o_pos = 0;
    let mut cur_win_size = 0;
    let mut num_add_bytes = 0;
    /*+*/ proof { reveal(witness); lemma_st_start(); lemma_agrees_start(file); lemma_items_start(sc); assert(w0.written() + g.z =~= w0.written()); assert(sops(cur_win@) =~= Seq::empty()); } /*-*/
    /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/ loop
        /*+*/ invariant_except_break
            0 <= reader.at() <= sc.len(), v == items(sc.take(reader.at())), agrees(v, file, ssp, vcd_trgt, cur_o_pos as int, g.ops),
        invariant
            reader.file() == file, reader.reliable(), vcd_script(file) == Some(sc), all == items(sc), witness(all, file, d0),
            st_ok(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int), writer.written() == w0.written() + g.z, writer.wreliable() == w0.wreliable(),
        ensures
            agrees(all, file, ssp, vcd_trgt, cur_o_pos as int, g.ops),
        decreases sc.len() - reader.at(), /*-*/
    {
        /*+*/ let ghost at = reader.at(); proof { ax_script(file); lemma_items(sc, at); } /*-*/
        match reader.next()?{
            VCDiffReadMsg::WindowSummary(ws) => {
                /*+*/ proof { lemma_witness(all, v, items_of(sc[at]), file, d0); } let ghost ssp0 = ssp; let ghost trgt0 = vcd_trgt; /*-*/ ssp = ws.source_segment_position;
                if ws.win_indicator == WinIndicator::VCD_TARGET{
                    vcd_trgt = true;
                }
                /*+*/ proof { lemma_agrees_open(v, file, ssp0, trgt0, ssp, vcd_trgt, cur_o_pos as int, g.ops, ws); v = items(sc.take(at + 1)); } /*-*/
            },
            VCDiffReadMsg::Inst { first, second } => {
                /*+*/ let ghost n0 = v.len() as int; let ghost todo = seq![Some(first), second]; proof { lemma_two_insts(first, second); } /*-*/
                { let mut vp_it = vp_array_iter([Some(first), second]); /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/ loop
                    /*+*/ invariant_except_break
                        vp_it.rest().len() <= 2, vp_it.rest() == todo.skip(2 - vp_it.rest().len()), v == items(sc.take(at)) + insts_of(todo.take(2 - vp_it.rest().len())),
                        agrees(v, file, ssp, vcd_trgt, cur_o_pos as int, g.ops),
                    invariant
                        reader.file() == file, reader.reliable(), reader.at() == at + 1, 0 <= at < sc.len(), vcd_script(file) == Some(sc), all == items(sc), witness(all, file, d0), todo.len() == 2, items_of(sc[at]) == insts_of(todo), items(sc.take(at + 1)) == items(sc.take(at)) + items_of(sc[at]),
                        is_prefix(items(sc.take(at + 1)), all),
                        st_ok(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int), writer.written() == w0.written() + g.z, writer.wreliable() == w0.wreliable(),
                    ensures
                        v == items(sc.take(at + 1)), agrees(v, file, ssp, vcd_trgt, cur_o_pos as int, g.ops),
                    decreases vp_it.rest().len(), /*-*/
                { /*+*/ let ghost j = 2 - vp_it.rest().len(); proof { lemma_insts_of(todo, j); } /*-*/ match vp_it.next() { Some(inst) => {
                    if inst.is_none(){
                        continue;
                    }
                    let inst = inst.unwrap();
                    /*+*/ let ghost i = inst; let ghost pos = cur_o_pos as int; let ghost ops0 = g.ops;
                    proof { lemma_window(v, 0, todo, j as int, i, items(sc.take(at)), items(sc.take(at + 1)), all); lemma_witness(all, v, seq![Item::Inst(i)], file, d0); lemma_inst(v, i, file, ssp, vcd_trgt, pos, ops0, d0); lemma_part_start(i, file, ssp, vcd_trgt, pos, ops0); } /*-*/
                    match inst{
                        Inst::Add(ADD{ len, p_pos }) => {
                            let r = reader.get_reader(p_pos)?;
                            let total: u32 = len;
                            let mut processed: u32 = 0;
 /*+*/ proof { lemma_add_fits(ADD { len, p_pos }, file, ssp, vcd_trgt, pos, d0); } let ghost rf = *final(r); let ghost rid = (*r).rid(); /*-*/
                            /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/ while processed < total
 /*+*/ invariant processed <= total == ilen(i), i == Inst::Add(ADD { len, p_pos }), partly(i, file, ssp, vcd_trgt, pos, ops0, g.ops, processed as int), fits(i, file, ssp, vcd_trgt, pos, d0), st_ok(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int), writer.written() == w0.written() + g.z, writer.wreliable() == w0.wreliable(), cur_o_pos == pos, (*r).rdata() == file, (*r).rpos() == p_pos + processed, (*r).rreliable(), *final(r) == rf, (*r).rid() == rid, decreases total - processed, /*-*/ {
 /*+*/ let ghost p0 = processed as int; proof { lemma_st_bounds(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int); } /*-*/
                                let remaining = total - processed;
                                let chunk_size = remaining.min(MAX_INST_SIZE);
                                if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                    let header = SectionHeader {
                                        num_operations:cur_win.len() as u32,
                                        num_add_bytes,
                                        output_size:cur_win_size,
                                        compression_algo: 0,
                                        format: Format::Interleaved,
                                        more_sections: true

                                    };
                                    /*+*/ let ghost wb = writer; let ghost h = header; let ghost c0 = cur_win@; proof { lemma_st_header(g, c0, cur_win_size as int, num_add_bytes as int, h); } /*-*/
 write_section_header(&header,&mut writer)?;
 /*+*/ let ghost wm = writer; /*-*/
                                    write_ops(&cur_win, &header,&mut writer)?;
 /*+*/ proof { assert(head_written(wb, wm, h) && body_written(wm, writer, h, c0)); g = lemma_flushed(g, c0, cur_win_size as int, num_add_bytes as int, h, w0, wb, wm, writer); } /*-*/
                                    cur_win.clear();
                                    cur_win_size = 0;
                                    num_add_bytes = 0;
 /*+*/ proof { assert(sops(cur_win@) =~= Seq::empty()); } /*-*/
                                }
                                let mut bytes = vec![0; chunk_size as usize];
                                r.read_exact(&mut bytes)?;
                                let op = Op::Add(Add{bytes});
                                /*+*/ let ghost x = sop(op); let ghost n = chunk_size as int; let ghost c1 = cur_win@; /*-*/ cur_win.push(op);
 /*+*/ proof { lemma_piece_add(i, file, ssp, vcd_trgt, pos, x, p0, n); lemma_part_push(i, file, ssp, vcd_trgt, pos, ops0, g.ops, x, p0, n); lemma_st_push(g, sops(c1), cur_win_size as int, num_add_bytes as int, x); assert(sops(cur_win@) =~= sops(c1).push(x)); g = VG { z: g.z, secs: g.secs, ops: g.ops.push(x) }; } /*-*/
                                processed += chunk_size;
                                num_add_bytes += chunk_size;
                                cur_win_size += chunk_size;
                            }
                            cur_o_pos += len as u64; /*+*/ proof { lemma_part_end(v, i, file, ssp, vcd_trgt, pos, ops0, g.ops); v = v.push(Item::Inst(i)); } /*-*/
                        },
                        Inst::Run(RUN{ len, byte }) => {
                            let total: u32 = len;
                            /*+*/ proof { lemma_run_fits(RUN { len, byte }, file, ssp, vcd_trgt, pos, d0); } /*-*/ let mut processed: u32 = 0;
                            /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/ while processed < total
 /*+*/ invariant processed <= total == ilen(i), i == Inst::Run(RUN { len, byte }), partly(i, file, ssp, vcd_trgt, pos, ops0, g.ops, processed as int), fits(i, file, ssp, vcd_trgt, pos, d0), st_ok(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int), writer.written() == w0.written() + g.z, writer.wreliable() == w0.wreliable(), cur_o_pos == pos,  decreases total - processed, /*-*/ {
 /*+*/ let ghost p0 = processed as int; proof { lemma_st_bounds(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int); } /*-*/
                                let remaining = total - processed;
                                let chunk_size = remaining.min(MAX_RUN_LEN as u32);
                                if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                    let header = SectionHeader {
                                        num_operations:cur_win.len() as u32,
                                        num_add_bytes,
                                        output_size:cur_win_size,
                                        compression_algo: 0,
                                        format: Format::Interleaved,
                                        more_sections: true

                                    };
                                    /*+*/ let ghost wb = writer; let ghost h = header; let ghost c0 = cur_win@; proof { lemma_st_header(g, c0, cur_win_size as int, num_add_bytes as int, h); } /*-*/
 write_section_header(&header,&mut writer)?;
 /*+*/ let ghost wm = writer; /*-*/
                                    write_ops(&cur_win, &header,&mut writer)?;
 /*+*/ proof { assert(head_written(wb, wm, h) && body_written(wm, writer, h, c0)); g = lemma_flushed(g, c0, cur_win_size as int, num_add_bytes as int, h, w0, wb, wm, writer); } /*-*/
                                    cur_win.clear();
                                    cur_win_size = 0;
                                    num_add_bytes = 0;
 /*+*/ proof { assert(sops(cur_win@) =~= Seq::empty()); } /*-*/
                                }
                                assert!(chunk_size <= MAX_RUN_LEN as u32);
                                let op = Op::Run(Run{byte,len:chunk_size as u8});
                                /*+*/ let ghost x = sop(op); let ghost n = chunk_size as int; let ghost c1 = cur_win@; /*-*/ cur_win.push(op);
 /*+*/ proof { lemma_piece_run(i, file, ssp, vcd_trgt, pos, x, p0, n); lemma_part_push(i, file, ssp, vcd_trgt, pos, ops0, g.ops, x, p0, n); lemma_st_push(g, sops(c1), cur_win_size as int, num_add_bytes as int, x); assert(sops(cur_win@) =~= sops(c1).push(x)); g = VG { z: g.z, secs: g.secs, ops: g.ops.push(x) }; } /*-*/
                                cur_win_size += chunk_size;
                                processed += chunk_size;
                            }
                            cur_o_pos += len as u64; /*+*/ proof { lemma_part_end(v, i, file, ssp, vcd_trgt, pos, ops0, g.ops); v = v.push(Item::Inst(i)); } /*-*/
                        },
                        Inst::Copy(copy) =>{
                            /*+*/ proof { lemma_copy_fits(copy, file, ssp, vcd_trgt, pos, d0); } /*-*/ let (mut addr,src,seq) = match copy.copy_type{
                                CopyType::CopyS => {
                                    let ssp = ssp.expect("SSP not set");
                                    let addr = ssp+copy.u_pos as u64;
                                    let src = if vcd_trgt {CopySrc::Output}else{CopySrc::Dict};
                                    (addr,src,None)
                                },
                                CopyType::CopyT { inst_u_pos_start } => {
                                    let offset = inst_u_pos_start - copy.u_pos;
                                    let addr = cur_o_pos - offset as u64;
                                    let src = CopySrc::Output;
                                    (addr,src,None)
                                },
                                CopyType::CopyQ { len_o } => {
                                    let slice_len = copy.len_in_u() - len_o;
                                    let addr = cur_o_pos - slice_len as u64;
                                    let src = CopySrc::Output;
                                    (addr,src,Some((slice_len,len_o)))
                                },
                            };
                            if let Some((slice_len,seq_len)) = seq {
                                let total: u32 = seq_len;
                                let mut processed: u32 = 0;
                                /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/ while processed < total
 /*+*/ invariant processed <= total == ilen(i), i == Inst::Copy(copy), partly(i, file, ssp, vcd_trgt, pos, ops0, g.ops, processed as int), fits(i, file, ssp, vcd_trgt, pos, d0), st_ok(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int), writer.written() == w0.written() + g.z, writer.wreliable() == w0.wreliable(), cur_o_pos == pos, copy.copy_type is CopyQ, src is Output, addr == pos - slice_len, 1 <= slice_len, slice_len == copy.len - copy.copy_type->CopyQ_len_o, decreases total - processed, /*-*/ {
 /*+*/ let ghost p0 = processed as int; proof { lemma_st_bounds(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int); } /*-*/
                                    let remaining = total - processed;
                                    let chunk_size = remaining.min(slice_len).min(MAX_INST_SIZE);
                                    //dbg!(slice_len,chunk_size);
                                    if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                        let header = SectionHeader {
                                            num_operations:cur_win.len() as u32,
                                            num_add_bytes,
                                            output_size:cur_win_size,
                                            compression_algo: 0,
                                            format: Format::Interleaved,
                                            more_sections: true

                                        };
                                        /*+*/ let ghost wb = writer; let ghost h = header; let ghost c0 = cur_win@; proof { lemma_st_header(g, c0, cur_win_size as int, num_add_bytes as int, h); } /*-*/
 write_section_header(&header,&mut writer)?;
 /*+*/ let ghost wm = writer; /*-*/
                                        write_ops(&cur_win, &header,&mut writer)?;
 /*+*/ proof { assert(head_written(wb, wm, h) && body_written(wm, writer, h, c0)); g = lemma_flushed(g, c0, cur_win_size as int, num_add_bytes as int, h, w0, wb, wm, writer); } /*-*/
                                        cur_win.clear();
                                        cur_win_size = 0;
                                        num_add_bytes = 0;
 /*+*/ proof { assert(sops(cur_win@) =~= Seq::empty()); } /*-*/
                                    }
                                    let op = Op::Copy(Copy{ src, addr: addr + (processed % slice_len) as u64, len: chunk_size as u16 });
                                    /*+*/ let ghost x = sop(op); let ghost n = chunk_size as int; let ghost c1 = cur_win@; /*-*/ cur_win.push(op);
 /*+*/ proof { lemma_piece_q(i, file, ssp, vcd_trgt, pos, x, p0, n); lemma_part_push(i, file, ssp, vcd_trgt, pos, ops0, g.ops, x, p0, n); lemma_st_push(g, sops(c1), cur_win_size as int, num_add_bytes as int, x); assert(sops(cur_win@) =~= sops(c1).push(x)); g = VG { z: g.z, secs: g.secs, ops: g.ops.push(x) }; } /*-*/
                                    processed += chunk_size;
                                    cur_win_size += chunk_size;

                                };
                                cur_o_pos += seq_len as u64; /*+*/ proof { lemma_part_end(v, i, file, ssp, vcd_trgt, pos, ops0, g.ops); v = v.push(Item::Inst(i)); } /*-*/
                            }else{
                                let total: u32 = copy.len_in_o();
                                let mut processed: u32 = 0;
                                /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/ while processed < total
 /*+*/ invariant processed <= total == ilen(i), i == Inst::Copy(copy), partly(i, file, ssp, vcd_trgt, pos, ops0, g.ops, processed as int), fits(i, file, ssp, vcd_trgt, pos, d0), st_ok(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int), writer.written() == w0.written() + g.z, writer.wreliable() == w0.wreliable(), cur_o_pos == pos, !(copy.copy_type is CopyQ), at_addr(copy, ssp, vcd_trgt, pos, src is Dict, addr - processed), addr - processed + total <= i64::MAX, decreases total - processed, /*-*/ {
 /*+*/ let ghost p0 = processed as int; proof { lemma_st_bounds(g, sops(cur_win@), cur_win_size as int, num_add_bytes as int); } /*-*/
                                    let remaining = total - processed;
                                    let chunk_size = MAX_INST_SIZE.min(remaining);
                                    if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                        let header = SectionHeader {
                                            num_operations:cur_win.len() as u32,
                                            num_add_bytes,
                                            output_size:cur_win_size,
                                            compression_algo: 0,
                                            format: Format::Interleaved,
                                            more_sections: true

                                        };
                                        /*+*/ let ghost wb = writer; let ghost h = header; let ghost c0 = cur_win@; proof { lemma_st_header(g, c0, cur_win_size as int, num_add_bytes as int, h); } /*-*/
 write_section_header(&header,&mut writer)?;
 /*+*/ let ghost wm = writer; /*-*/
                                        write_ops(&cur_win, &header,&mut writer)?;
 /*+*/ proof { assert(head_written(wb, wm, h) && body_written(wm, writer, h, c0)); g = lemma_flushed(g, c0, cur_win_size as int, num_add_bytes as int, h, w0, wb, wm, writer); } /*-*/
                                        cur_win.clear();
                                        cur_win_size = 0;
                                        num_add_bytes = 0;
 /*+*/ proof { assert(sops(cur_win@) =~= Seq::empty()); } /*-*/
                                    }
                                    let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });
                                    /*+*/ let ghost x = sop(op); let ghost n = chunk_size as int; let ghost c1 = cur_win@; /*-*/ cur_win.push(op);
 /*+*/ proof { lemma_piece_c(i, file, ssp, vcd_trgt, pos, x, p0, n); lemma_part_push(i, file, ssp, vcd_trgt, pos, ops0, g.ops, x, p0, n); lemma_st_push(g, sops(c1), cur_win_size as int, num_add_bytes as int, x); assert(sops(cur_win@) =~= sops(c1).push(x)); g = VG { z: g.z, secs: g.secs, ops: g.ops.push(x) }; } /*-*/
                                    addr += chunk_size as u64;
                                    processed += chunk_size;
                                    cur_win_size += chunk_size;

                                };
                                cur_o_pos += copy.len_in_u() as u64; /*+*/ proof { lemma_part_end(v, i, file, ssp, vcd_trgt, pos, ops0, g.ops); v = v.push(Item::Inst(i)); } /*-*/
                            }
                        }
                    }
                } _ => break } } }
            },
            VCDiffReadMsg::EndOfWindow => {
                /*+*/ proof { lemma_agrees_close(v, file, ssp, vcd_trgt, cur_o_pos as int, g.ops); v = items(sc.take(at + 1)); } /*-*/
                ssp = None;
                vcd_trgt = false;
            },
            VCDiffReadMsg::EndOfFile => break
        }
    }
    //dbg!(cur_o_pos);
    //now we determine what we need to write
    let header = SectionHeader {
        num_operations:cur_win.len() as u32,
        num_add_bytes,
        output_size:cur_win_size,
        compression_algo: 0,
        format: Format::Interleaved,
        more_sections: false

    };
    /*+*/ let ghost wb = writer; let ghost h = header; let ghost c0 = cur_win@; proof { lemma_st_header(g, c0, cur_win_size as int, num_add_bytes as int, h); } /*-*/
 write_section_header(&header,&mut writer)?;
 /*+*/ let ghost wm = writer; /*-*/
    write_ops(&cur_win, &header,&mut writer)?;
 /*+*/ proof { assert(head_written(wb, wm, h) && body_written(wm, writer, h, c0)); let q = lemma_finished(g, c0, cur_win_size as int, num_add_bytes as int, h, w0, wb, wm, writer); lemma_converted(file, ssp, vcd_trgt, cur_o_pos as int, g.ops); assert(converted(file, w0, writer, g.ops, q.z, q.secs)); } /*-*/
    Ok(())
}
//@end

/// C13.  Where the VCDIFF patch describes t for the source d, apply_patch on what was written produces t where it succeeds (its
/// contract: patched) ...
pub proof fn c13_applied<W: Write, P: Read, V: Write>(file: Seq<u8>, w0: W, w1: W, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>, d: Option<Seq<u8>>, t: Seq<u8>, p0: P, v1: V, s2: Seq<u8>, secs2: Seq<Sec>, o: Seq<u8>)
    requires converted(file, w0, w1, ops, z, zs), vcd_means(file, d, t), offers(p0, z), crate::smdiff_decoder::patched(p0, v1, d, s2, secs2, o)
    ensures o == t
{ crate::smdiff_decoder::theorem_one_result(p0, v1, d, s2, secs2, o, z, zs); }
/// ... and it does not fail
pub proof fn c13_accepted<W: Write, P: Read>(file: Seq<u8>, w0: W, w1: W, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>, d: Option<Seq<u8>>, t: Seq<u8>, p0: P)
    requires converted(file, w0, w1, ops, z, zs), vcd_means(file, d, t), offers(p0, z)
    ensures offers_patch(packed(), p0, z, zs), !cannot(flat_ops(zs), d, Seq::empty())
{ crate::th_c01::lemma_not_refused(ops, d, t); }

}
}
