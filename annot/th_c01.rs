// C01, C12: what the encoder wrote is what the decoder makes of it (ghost; over the contracts of both).
pub mod th_c01 {
use vstd::prelude::*;
use std::io::{Read, Write};
use crate::io::*;
use crate::smdiff_common::*;
use crate::format::*;
use crate::patch::*;
use crate::op_lemmas::*;
use crate::reader::*;
use crate::smdiff_decoder::*;
use crate::smdiff_encoder::*;
use crate::sections::*;
verus! {

/// the source at the decoder is the one the encoder used; if it used none, it does not matter
pub open spec fn same_source(d: Option<Seq<u8>>, sd: Option<Seq<u8>>) -> bool { d is None || sd == d }
proof fn lemma_same_result(ops: Seq<SOp>, d: Option<Seq<u8>>, sd: Option<Seq<u8>>, t: Seq<u8>)
    requires run_ops(ops, d, Seq::empty()) == Some(t), same_source(d, sd)
    ensures run_ops(ops, sd, Seq::empty()) == Some(t)
{ if d is None { lemma_any_dict(ops, sd, t); } }
pub proof fn lemma_not_refused(ops: Seq<SOp>, sd: Option<Seq<u8>>, t: Seq<u8>)
    requires run_ops(ops, sd, Seq::empty()) == Some(t), crate::op_maker::neat(ops)
    ensures !cannot(ops, sd, Seq::empty())
{
    if has_empty_dict(ops) {
        let i = choose|i: int| 0 <= i < ops.len() && empty_dict(#[trigger] ops[i]);
        assert(slen(ops[i]) >= 1);
    }
}

/// C01.  The written patch s (contract of encode) is at the start of what is read.  Where apply_patch succeeds (its contract:
/// patched) it read exactly s and its output is the target, and nothing else is in a sink that was empty.
pub proof fn c01_only_the_target<P: Read, W: Write>(p0: P, w0: W, w1: W, d: Option<Seq<u8>>, sd: Option<Seq<u8>>, t: Seq<u8>, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, s2: Seq<u8>, secs2: Seq<Sec>, o: Seq<u8>)
    requires encoded(s, secs, c, d, t), offers(p0, s), same_source(d, sd), patched(p0, w1, sd, s2, secs2, o) && (empty_sink(w0) ==> w1.wdata() == o)
    ensures s2 == s, secs2 == secs, o == t, w1.wdata().take(t.len() as int) == t, empty_sink(w0) ==> w1.wdata() == t
{
    theorem_one_result(p0, w1, sd, s2, secs2, o, s, secs);
    lemma_same_result(flat_ops(secs), d, sd, t);
}
/// C01.  The errors apply_patch can return (its contract) are not for patches the encoder wrote.
pub proof fn c01_not_refused<P: Read>(p0: P, d: Option<Seq<u8>>, sd: Option<Seq<u8>>, t: Seq<u8>, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>)
    requires encoded(s, secs, c, d, t), offers(p0, s), same_source(d, sd)
    ensures offers_patch(packed(), p0, s, secs), !cannot(flat_ops(secs), sd, Seq::empty()), c.sec_comp is None ==> offers_patch(plain(), p0, s, secs)
{
    lemma_same_result(flat_ops(secs), d, sd, t);
    lemma_not_refused(flat_ops(secs), sd, t);
}
/// C01 for the reader without decompression
pub proof fn c01_plain<P: Read, W: Write>(p0: P, p1: P, w0: W, w1: W, d: Option<Seq<u8>>, sd: Option<Seq<u8>>, t: Seq<u8>, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, s2: Seq<u8>, secs2: Seq<Sec>, o: Seq<u8>)
    requires encoded(s, secs, c, d, t), c.sec_comp is None, offers(p0, s), same_source(d, sd), applied(p0, p1, w1, sd, s2, secs2, o) && (empty_sink(w0) ==> w1.wdata() == o)
    ensures s2 == s, secs2 == secs, o == t, w1.wdata().take(t.len() as int) == t, empty_sink(w0) ==> w1.wdata() == t
{
    lemma_offers_prefix(p0, s);
    if s2.len() > 0 { lemma_eaten_prefix(p0, p1, s2); } else { assert(s2 =~= rest(p0).take(0)); }
    lemma_plain_proper();
    lemma_patch_unique(plain(), s2, s, rest(p0), secs2, secs);
    lemma_same_result(flat_ops(secs), d, sd, t);
}
/// C08.  The limits of a section
pub open spec fn sec_limits(x: Sec, c: EncoderConfig, last: bool) -> bool {
    let l = if c.output_segment_size < 65535 { 65535 } else if c.output_segment_size > 16777215 { 16777215 } else { c.output_segment_size as int };
    x.h.size <= l && x.h.size == total(x.ops) && x.h.n == x.ops.len() && (x.h.seg ==> x.h.adds == adds(x.ops).len()) && x.h.more == !last
}
pub proof fn c08_sections(s: Seq<u8>, secs: Seq<Sec>, c: EncoderConfig)
    requires laid_out(s, secs, c)
    ensures forall|i: int| 0 <= i < secs.len() ==> sec_limits(#[trigger] secs[i], c, i == secs.len() - 1)
{
    assert forall|i: int| 0 <= i < secs.len() implies (#[trigger] secs[i]).h.more == (i < secs.len() - 1) by { lemma_flags(packed(), s, secs, i); }
    assert forall|i: int| 0 <= i < secs.len() implies totals_ok((#[trigger] secs[i]).h, secs[i].ops) && secs[i].h.size <= section_limit(c.output_segment_size) by { assert(sec_fits(secs[i], c)); }
}
/// C08.  What the encoder writes respects the limits of the format.
pub proof fn c08_encoder(d: Option<Seq<u8>>, t: Seq<u8>, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, k: int)
    requires encoded(s, secs, c, d, t), 0 <= k < flat_ops(secs).len()
    ensures
        slen(flat_ops(secs)[k]) >= 1, flat_ops(secs)[k] is Run ==> slen(flat_ops(secs)[k]) <= 62, slen(flat_ops(secs)[k]) <= 65535,
        flat_ops(secs)[k] matches SOp::Copy { dict, addr, len } ==> addr + len <= (if dict { real_src(d).len() } else { total(flat_ops(secs).take(k)) }),
        forall|i: int| 0 <= i < secs.len() ==> sec_limits(#[trigger] secs[i], c, i == secs.len() - 1),
{
    let ops = flat_ops(secs);
    assert(op_ok(ops[k]) && slen(ops[k]) >= 1);
    lemma_at_op(ops, k, d, t);
    c08_sections(s, secs, c);
}
pub proof fn lemma_at_op(ops: Seq<SOp>, k: int, d: Option<Seq<u8>>, t: Seq<u8>)
    requires run_ops(ops, d, Seq::empty()) == Some(t), 0 <= k < ops.len()
    ensures ops[k] matches SOp::Copy { dict, addr, len } ==> slen(ops[k]) >= 1 ==> addr + len <= (if dict { real_src(d).len() } else { total(ops.take(k)) })
{
    lemma_parts(ops, k, d, t);
}
pub proof fn lemma_flags(p: SecPred, s: Seq<u8>, secs: Seq<Sec>, i: int)
    requires is_secs(p, s, secs, true), 0 <= i < secs.len()
    ensures secs[i].h.more == (i < secs.len() - 1)
    decreases secs.len()
{
    let k = choose|k: int| 0 <= k <= s.len() && #[trigger] p(s.take(k), secs[0].h, secs[0].ops)
            && secs[0].h.more == !(secs.len() == 1) && is_secs(p, s.skip(k), secs.skip(1), secs.len() > 1);
    if i > 0 { lemma_flags(p, s.skip(k), secs.skip(1), i - 1); assert(secs.skip(1)[i - 1] == secs[i]); }
}
/// C12.  a: the section written with compression c; b: the same section written without.  The contract of the decompressing
/// reader (csec_read where it succeeds, offers_csec where it fails) leaves only the same operations and totals for both.
pub proof fn c12_transparent<A: AddOp, R: Read>(h: SectionHeader, c: Option<SecondaryCompression>, ops: Seq<crate::smdiff_common::Op<A>>, a: Seq<u8>, r0: R, r1: R, h2: SHead, ops2: Seq<SOp>)
    requires sec_written(a, h, c, ops), offers(r0, a), csec_read(r0, r1, h2, ops2)
    ensures ops2 == sops(ops), h2 == written_head(h, c, ops), h2 == (SHead { algo: algo_of(c), ..written_head(h, None, ops) }), eaten(r0, r1, a)
{
    let z = lemma_csec_read(r0, r1, h2, ops2);
    lemma_offers_prefix(r0, a);
    lemma_offers_prefix(r0, z);
    lemma_packed_proper();
    let p = packed();
    assert(p(a, written_head(h, c, ops), sops(ops)) && p(z, h2, ops2));
}
pub proof fn c12_not_refused<A: AddOp, R: Read>(h: SectionHeader, c: Option<SecondaryCompression>, ops: Seq<crate::smdiff_common::Op<A>>, a: Seq<u8>, r0: R)
    requires sec_written(a, h, c, ops), offers(r0, a)
    ensures offers_csec(r0, a, written_head(h, c, ops), sops(ops))
{ }
/// an unknown method has no meaning: no section offers it
pub proof fn c12_unknown<R: Read>(s: Seq<u8>, h: SHead, ops: Seq<SOp>)
    requires is_csec(s, h, ops)
    ensures h.algo <= 3
{ }

}
}
