// C03: what the section writer wrote is what the section reader reads (ghost; over the contracts of both).
pub mod th_sections {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common::*;
use crate::format::*;
use crate::smdiff_reader::{offers_section};
verus! {

/// what write_section_header and then write_ops are proved to append for `header` and `ops`
pub open spec fn written_section<A: AddOp>(w: Seq<u8>, header: SectionHeader, ops: Seq<Op<A>>) -> bool {
    exists|hb: Seq<u8>, body: Seq<u8>| w == #[trigger] (hb + body) && is_head(hb, shead(header)) && is_body(body, sops(ops), header.format is Interleaved)
        && crate::smdiff_writer::describes(header, ops)
}
/// the header with the number of add bytes the reader reports for it
pub open spec fn real_adds<A: AddOp>(header: SectionHeader, ops: Seq<Op<A>>) -> SHead {
    let h = shead(header);
    SHead { algo: h.algo, seg: h.seg, more: h.more, n: h.n, adds: adds(sops(ops)).len(), size: h.size }
}
pub proof fn lemma_written_is_section<A: AddOp>(w: Seq<u8>, header: SectionHeader, ops: Seq<Op<A>>)
    requires written_section(w, header, ops)
    ensures is_section(w, real_adds(header, ops), sops(ops))
{
    let (hb, body) = choose|hb: Seq<u8>, body: Seq<u8>| w == #[trigger] (hb + body) && is_head(hb, shead(header)) && is_body(body, sops(ops), header.format is Interleaved)
        && crate::smdiff_writer::describes(header, ops);
    let h = real_adds(header, ops);
    let (a, b) = choose|a: int, b: int| is_head_at(hb, a, b, shead(header));
    lemma_total_bound(sops(ops));
    assert(is_head_at(hb, a, b, h));
    assert(w.take(hb.len() as int) =~= hb);
    assert(w.skip(hb.len() as int) =~= body);
    assert(is_section_at(w, hb.len() as int, h, sops(ops)));
}
/// two sections at the same place are the same section
pub proof fn lemma_section_unique(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, g: SHead, h: SHead, x: Seq<SOp>, y: Seq<SOp>)
    requires is_section(a, g, x), is_section(b, h, y), prefix(a, t), prefix(b, t)
    ensures a == b, g == h, x == y
{
    let j = choose|j: int| is_section_at(a, j, g, x);
    let k = choose|k: int| is_section_at(b, k, h, y);
    lemma_prefix_skip(a, t, j);
    lemma_prefix_skip(b, t, k);
    lemma_head_unique(a.take(j), b.take(k), t, g, h);
    assert(a.take(j).len() == j && b.take(k).len() == k);
    lemma_body_unique(a.skip(j), b.skip(k), t.skip(j), x, y, !g.seg);
    assert(a =~= a.take(j) + a.skip(j));
    assert(b =~= b.take(k) + b.skip(k));
}
/// C03.  r0 offers the written bytes w.  What read_section can return there (its contract: h2, ops2 with section bytes s eaten)
/// is the written header and the written operations, exactly w is consumed, and it can not return an error.
pub proof fn c03_section_roundtrip<A: AddOp, R: std::io::Read>(w: Seq<u8>, header: SectionHeader, ops: Seq<Op<A>>, r0: R, r1: R, s: Seq<u8>, h2: SHead, ops2: Seq<SOp>)
    requires written_section(w, header, ops), offers(r0, w), is_section(s, h2, ops2), eaten(r0, r1, s), 0 <= r0.rpos()
    ensures s == w, h2 == real_adds(header, ops), ops2 == sops(ops), r1.rpos() == r0.rpos() + w.len()
{
    lemma_written_is_section(w, header, ops);
    lemma_offers_prefix(r0, w);
    if s.len() > 0 { lemma_eaten_prefix(r0, r1, s); } else { assert(s =~= rest(r0).take(0)); }
    lemma_section_unique(s, w, rest(r0), h2, real_adds(header, ops), ops2, sops(ops));
}
pub proof fn c03_section_accepted<A: AddOp, R: std::io::Read>(w: Seq<u8>, header: SectionHeader, ops: Seq<Op<A>>, r0: R)
    requires written_section(w, header, ops), offers(r0, w)
    ensures offers_section(r0, w, real_adds(header, ops), sops(ops))
{ lemma_written_is_section(w, header, ops); }

}
}
