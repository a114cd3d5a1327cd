// Writing a merged patch (C08, C09) and what a chain of merges amounts to (C09).
pub mod mwrite {
use vstd::prelude::*;
use std::io::{Read, Seek, Write};
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::*;
use crate::smdiff_reader::*;
use crate::format::*;
use crate::patch::*;
use crate::op_lemmas::*;
use crate::reader::*;
use crate::sections::*;
use crate::smdiff_writer::*;
use crate::smdiff_encoder::*;
use crate::smdiff_merger::*;
use crate::smdiff_decoder::{patched, theorem_one_result};
verus! {

/// how a patch is to be laid out
pub open spec fn layout(n: usize, f: Format, c: Option<SecondaryCompression>) -> EncoderConfig {
    EncoderConfig { match_src: None, match_trgt: None, sec_comp: c, format: f, output_segment_size: n, naive_tests: None, lazy_escape_len: None }
}
/// s is a patch with the operations ops, laid out like this
pub open spec fn holds(s: Seq<u8>, secs: Seq<Sec>, ops: Seq<SOp>, c: EncoderConfig) -> bool { laid_out(s, secs, c) && flat_ops(secs) == ops }
pub open spec fn appended<W: Write>(w0: W, w1: W, ops: Seq<SOp>, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>) -> bool { holds(s, secs, ops, c) && w1.written() == w0.written() + s }
pub open spec fn asked_size(n: Option<usize>) -> usize { match n { Some(n) => n, None => 16777215 } }
pub open spec fn asked_format(f: Option<Format>) -> Format { match f { Some(f) => f, None => Format::Interleaved } }

impl SummaryPatch {
//@item smdiff-merger/src/lib.rs impl SummaryPatch / fn write
    fn write<W:Write>(self,sink:&mut W,max_win_size:Option<usize>,format:Option<Format>,sec_comp:Option<SecondaryCompression>)-> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
        requires neat(sops(self.0@)), comp_ok(sec_comp)
        ensures
            (*final(sink)).wreliable() == (*old(sink)).wreliable(),
            r.is_ok() ==> exists|s: Seq<u8>, secs: Seq<Sec>| #[trigger] appended(*old(sink), *final(sink), sops(self.0@), layout(asked_size(max_win_size), asked_format(format), sec_comp), s, secs),
            (*old(sink)).wreliable() ==> r.is_ok(),
    /*-*/ {
        /*+*/ hide(is_secs); hide(neat); hide(sec_written); hide(describes); hide(total); hide(adds); hide(sections_ok); hide(joined); hide(laid_out);
        let ghost w0 = *sink; let ghost ops = sops(self.0@); let ghost c = layout(asked_size(max_win_size), asked_format(format), sec_comp); let ghost lim = section_limit(c.output_segment_size); /*-*/
        //window needs to be MAX_INST_SIZE..=MAX_WIN_SIZE
        let max_win_size = max_win_size.unwrap_or(MAX_WIN_SIZE).min(MAX_WIN_SIZE).max(MAX_INST_SIZE);
        let format = format.unwrap_or(Format::Interleaved);
        let mut sec_data_buffer = Vec::new();
        /*+*/ let ghost mut z: Seq<u8> = Seq::empty(); let ghost mut secs: Seq<Sec> = Seq::empty(); let ghost mut pos: int = 0;
        proof { lemma_so_far_start::<Add>(c); assert(can_write(ops)) by { reveal(neat); } assert(w0.written() + z =~= w0.written()); } /*-*/
        for (seg_ops,mut header) in /*+*/ it: /*-*/ make_sections(&self.0, max_win_size)
            /*+*/ invariant
                joined(it.seq()) == self.0@, sections_ok(it.seq(), lim, true), it.seq().len() > 0, lim == section_limit(c.output_segment_size), format == c.format, sec_comp == c.sec_comp, comp_ok(sec_comp),
                ops == sops(self.0@), neat(ops), it.index@ == 0 ==> z.len() == 0 && secs.len() == 0 && pos == 0,
                so_far(it.seq(), it.index@, z, secs, c, pos),
                (*sink).written() == w0.written() + z, (*sink).wreliable() == w0.wreliable(), w0 == *old(sink),
                sec_comp is Some ==> sec_data_buffer@.len() == 0,
                it.index@ == it.seq().len() ==> holds(z, secs, ops, c), /*-*/
        {
            header.format = format;
            /*+*/ let ghost k = it.index@; let ghost w1 = *sink; let ghost h = header; proof { assert(seg_ops@ == it.seq()[k].0@); lemma_planned(it.seq(), k, self.0@, lim, format, header); } /*-*/
            section_writer(&sec_comp, header, sink, seg_ops, &mut sec_data_buffer)?;
            /*+*/ proof {
                let s = choose|s: Seq<u8>| #[trigger] sec_written(s, header, sec_comp, seg_ops@) && (*sink).written() == w1.written() + s;
                lemma_so_far_step(it.seq(), k, z, secs, c, pos, s, header);
                pos = pos + header.output_size;
                secs = secs.push(Sec { h: written_head(header, c.sec_comp, seg_ops@), ops: sops(seg_ops@) });
                z = z + s;
                assert((*sink).written() =~= w0.written() + z);
                lemma_so_far_whole(it.seq(), k + 1, z, secs, c, pos);
            } /*-*/
        }
        /*+*/ proof { assert(appended(w0, *sink, ops, c, z, secs)); } /*-*/
        Ok(())
    }
//@end
}

// ---------------------------------------------------------------- chains of patches
/// from the source d the patches produce out, each applied to the output of the one before
pub open spec fn chain(ps: Seq<Seq<SOp>>, d: Option<Seq<u8>>, out: Seq<u8>) -> bool
    decreases ps.len()
{
    if ps.len() == 0 { d == Some(out) } else if ps.len() == 1 { yields(ps[0], d, out) }
    else { exists|mid: Seq<u8>| #[trigger] yields(ps[0], d, mid) && chain(ps.skip(1), Some(mid), out) }
}
/// applied once, ops do what the patches do one after another
pub open spec fn sums_up(ops: Seq<SOp>, ps: Seq<Seq<SOp>>) -> bool { ps.len() >= 1 && forall|d: Option<Seq<u8>>, out: Seq<u8>| #[trigger] chain(ps, d, out) ==> yields(ops, d, out) }

proof fn lemma_chain(ps: Seq<Seq<SOp>>, d: Option<Seq<u8>>, out: Seq<u8>) -> (mid: Seq<u8>)
    requires chain(ps, d, out), ps.len() >= 2
    ensures yields(ps[0], d, mid), chain(ps.skip(1), Some(mid), out)
{
    choose|mid: Seq<u8>| #[trigger] yields(ps[0], d, mid) && chain(ps.skip(1), Some(mid), out)
}
/// C09.  Merger::new (its contract: does_patch) sums up the one patch it is given
pub proof fn c09_new<R: Read>(r: R, ops: Seq<SOp>, s: Seq<u8>, secs: Seq<Sec>)
    requires stands_for_patch(r, ops, s, secs)
    ensures sums_up(ops, seq![flat_ops(secs)])
{
    assert forall|d: Option<Seq<u8>>, out: Seq<u8>| #[trigger] chain(seq![flat_ops(secs)], d, out) implies yields(ops, d, out) by { lemma_same_use(flat_ops(secs), ops, d, out); }
}
/// C09.  Merger::merge (its contract: does_both) sums up the given patch and what was merged before
pub proof fn c09_merge(q: Seq<SOp>, a: Seq<SOp>, b: Seq<SOp>, ps: Seq<Seq<SOp>>)
    requires joins(q, a, b), sums_up(a, ps)
    ensures sums_up(b, seq![q] + ps)
{
    reveal(joins);
    let qs = seq![q] + ps;
    assert(qs.skip(1) =~= ps);
    assert forall|d: Option<Seq<u8>>, out: Seq<u8>| #[trigger] chain(qs, d, out) implies yields(b, d, out) by {
        assert(qs.len() >= 2);
        let mid = lemma_chain(qs, d, out);
        assert(yields(q, d, mid) && yields(a, Some(mid), out));
    }
}
/// C09.  Merger::merge fails (its contract: never) only if there is no such chain
pub proof fn c09_not_refused(q: Seq<SOp>, a: Seq<SOp>, ps: Seq<Seq<SOp>>, d: Option<Seq<u8>>, out: Seq<u8>)
    requires never(q, a), sums_up(a, ps)
    ensures !chain(seq![q] + ps, d, out)
{
    let qs = seq![q] + ps;
    assert(qs.skip(1) =~= ps);
    if chain(qs, d, out) {
        assert(qs.len() >= 2);
        let mid = lemma_chain(qs, d, out);
        assert(yields(q, d, mid) && yields(a, Some(mid), out));
    }
}
/// C09.  What is left when merging reports that it is done (done_ok) does not need any source, nor any earlier patch
pub proof fn c09_done(ops: Seq<SOp>, ps: Seq<Seq<SOp>>, d: Option<Seq<u8>>, out: Seq<u8>, e: Option<Seq<u8>>, more: Seq<Seq<SOp>>)
    requires sums_up(ops, ps), no_src(ops), chain(more + ps, d, out)
    ensures yields(ops, e, out)
    decreases more.len()
{
    if more.len() == 0 { assert(more + ps =~= ps); assert(ops.take(ops.len() as int) =~= ops); lemma_no_src(ops, d, e, out, ops.len() as int); }
    else {
        let qs = more + ps;
        assert(qs.skip(1) =~= more.skip(1) + ps);
        assert(qs.len() >= 2);
        let mid = lemma_chain(qs, d, out);
        c09_done(ops, ps, Some(mid), out, e, more.skip(1));
    }
}
proof fn lemma_no_src(ops: Seq<SOp>, d: Option<Seq<u8>>, e: Option<Seq<u8>>, out: Seq<u8>, k: int)
    requires no_src(ops), 0 <= k <= ops.len(), yields(ops.take(k), d, out)
    ensures yields(ops.take(k), e, out)
    decreases k
{
    if k > 0 {
        assert(ops.take(k).drop_last() =~= ops.take(k - 1));
        lemma_no_src(ops, d, e, run_ops(ops.take(k - 1), d, Seq::empty())->0, k - 1);
        assert(!from_src(ops[k - 1]));
    }
}
/// C09.  The merged patch as it is written (contract of write: holds) is at the start of what is read.  Where apply_patch succeeds
/// (its contract: patched) its output is that of the chain ...
pub proof fn c09_applied<P: Read, W: Write>(p0: P, w1: W, ops: Seq<SOp>, ps: Seq<Seq<SOp>>, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, d: Option<Seq<u8>>, out: Seq<u8>, s2: Seq<u8>, secs2: Seq<Sec>, o: Seq<u8>)
    requires holds(s, secs, ops, c), sums_up(ops, ps), chain(ps, d, out), offers(p0, s), patched(p0, w1, d, s2, secs2, o)
    ensures o == out
{ theorem_one_result(p0, w1, d, s2, secs2, o, s, secs); }
/// ... and it can not fail
pub proof fn c09_accepted<P: Read>(p0: P, ops: Seq<SOp>, ps: Seq<Seq<SOp>>, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, d: Option<Seq<u8>>, out: Seq<u8>)
    requires holds(s, secs, ops, c), sums_up(ops, ps), chain(ps, d, out), neat(ops), offers(p0, s)
    ensures offers_patch(packed(), p0, s, secs), !cannot(flat_ops(secs), d, Seq::empty())
{ crate::th_c01::lemma_not_refused(ops, d, out); }
/// C08.  What the merger writes respects the limits of the format.
pub proof fn c08_merger(s: Seq<u8>, secs: Seq<Sec>, ops: Seq<SOp>, c: EncoderConfig, k: int)
    requires holds(s, secs, ops, c), clean(ops), 0 <= k < ops.len()
    ensures
        slen(ops[k]) >= 1, ops[k] is Run ==> slen(ops[k]) <= 62, slen(ops[k]) <= 65535, own(ops[k]),
        forall|i: int| 0 <= i < secs.len() ==> crate::th_c01::sec_limits(#[trigger] secs[i], c, i == secs.len() - 1),
{
    assert(op_ok(ops[k]) && slen(ops[k]) >= 1);
    crate::th_c01::c08_sections(s, secs, c);
}
/// ... with every copy inside the source, if it can be applied to one
pub proof fn c08_inside(ops: Seq<SOp>, k: int, d: Option<Seq<u8>>, out: Seq<u8>)
    requires neat(ops), yields(ops, d, out), 0 <= k < ops.len()
    ensures ops[k] matches SOp::Copy { dict, addr, len } ==> addr + len <= (if dict { real_src(d).len() } else { total(ops.take(k)) })
{ crate::th_c01::lemma_at_op(ops, k, d, out); }

}
}
