// Dividing operations into sections (C08).
pub mod sections {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common::*;
use crate::format::*;
pub use crate::op_lemmas::{full_ops, lemma_count_bound};
verus! {

/// the operations of the sections one after another
pub open spec fn joined<A: AddOp>(v: Seq<(&[Op<A>], SectionHeader)>) -> Seq<Op<A>>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { joined(v.drop_last()) + v.last().0@ } }
pub open spec fn section_limit(n: usize) -> int { if n < 65535 { 65535 } else if n > 16777215 { 16777215 } else { n as int } }
/// the header carries the real counts, and the output is at most `limit`
pub open spec fn counted<A: AddOp>(ops: Seq<Op<A>>, h: SectionHeader, limit: int) -> bool {
    &&& h.num_operations == ops.len() && h.output_size == total(sops(ops)) && h.num_add_bytes == adds(sops(ops)).len()
    &&& h.output_size <= limit && h.compression_algo == 0
}
/// the header of every section carries the real counts, only the last one has no continuation flag
pub open spec fn sections_ok<A: AddOp>(v: Seq<(&[Op<A>], SectionHeader)>, limit: int, last: bool) -> bool {
    forall|i: int| 0 <= i < v.len() ==> counted((#[trigger] v[i]).0@, v[i].1, limit) && v[i].1.more_sections == !(last && i == v.len() - 1)
}
/// the format can represent the operations and their number
pub open spec fn can_write(ops: Seq<SOp>) -> bool { ops_ok(ops) && (full_ops(ops) || ops.len() <= u32::MAX) }
pub proof fn lemma_sub_push<A: AddOp>(ops: Seq<Op<A>>, i: int, k: int)
    requires 0 <= i <= k < ops.len()
    ensures sops(ops.subrange(i, k + 1)) == sops(ops.subrange(i, k)).push(sop(ops[k]))
{ assert(sops(ops.subrange(i, k + 1)) =~= sops(ops.subrange(i, k)).push(sop(ops[k]))); }
pub proof fn lemma_sub_ok<A: AddOp>(ops: Seq<Op<A>>, i: int, k: int)
    requires 0 <= i <= k <= ops.len(), can_write(sops(ops))
    ensures can_write(sops(ops.subrange(i, k))), total(sops(ops.subrange(i, k))) <= u32::MAX ==> k - i <= u32::MAX
{
    let s = sops(ops.subrange(i, k));
    assert forall|j: int| 0 <= j < s.len() implies op_ok(#[trigger] s[j]) by { assert(op_ok(sops(ops)[i + j])); }
    if full_ops(sops(ops)) {
        assert forall|j: int| 0 <= j < s.len() implies slen(#[trigger] s[j]) >= 1 by { assert(slen(sops(ops)[i + j]) >= 1); }
        lemma_count_bound(s);
    }
}

//@item smdiff-writer/src/lib.rs fn make_sections
fn make_sections<A:AddOp>(ops: &[Op<A>], max_section_size: usize) -> /*+*/ (r: /*-*/ Vec<(&[Op<A>],SectionHeader)> /*+*/)
    ensures
        joined(r@) == ops@, r@.len() >= 1,
        can_write(sops(ops@)) ==> sections_ok(r@, section_limit(max_section_size), true),
/*-*/ {
    let max_win_size = max_section_size.clamp(MAX_INST_SIZE, MAX_WIN_SIZE) as u32;
    let mut result = Vec::new();
    let mut output_size = 0;
    let mut num_add_bytes = 0;
    let mut start_index = 0;
    /*+*/ let ghost ok = can_write(sops(ops@));
    proof { assert(ops@.take(0) =~= joined(result@)); assert(sops(ops@.subrange(0, 0)) =~= Seq::empty()); } /*-*/
    {
    let mut vp_n: usize = 0;
    for op in /*+*/ it: /*-*/ ops.iter()
        /*+*/ invariant
            it.seq().len() == ops@.len(), forall|i: int| 0 <= i < ops@.len() ==> *(#[trigger] it.seq()[i]) == ops@[i],
            vp_n == it.index@, ops@.len() == ops.len(), start_index <= vp_n <= ops@.len(), max_win_size == section_limit(max_section_size), ok == can_write(sops(ops@)),
            joined(result@) == ops@.take(start_index as int),
            num_add_bytes <= output_size <= max_win_size,
            ok ==> output_size == total(sops(ops@.subrange(start_index as int, vp_n as int))) && num_add_bytes == adds(sops(ops@.subrange(start_index as int, vp_n as int))).len(),
            ok ==> sections_ok(result@, max_win_size as int, false), /*-*/
    {
        let end_index = vp_n;
        vp_n += 1;
        /*+*/ proof { lemma_sub_push(ops@, start_index as int, end_index as int); assert(*op == ops@[end_index as int]); if ok { assert(op_ok(sops(ops@)[end_index as int])); } } let ghost r0 = result@; /*-*/
        let op_size = op.oal() as u32;
        if output_size + op_size > max_win_size {
            /*+*/ proof { if ok { lemma_sub_ok(ops@, start_index as int, end_index as int); } } /*-*/
            result.push((&ops[start_index..end_index],SectionHeader{ num_operations: (end_index-start_index) as u32, num_add_bytes, output_size, compression_algo: 0, format: Format::Interleaved, more_sections: true }));
            /*+*/ proof {
                assert(result@.drop_last() =~= r0);
                assert(joined(result@) =~= ops@.take(end_index as int));
                assert(sops(ops@.subrange(end_index as int, end_index as int)) =~= Seq::empty());
                lemma_sub_push(ops@, end_index as int, end_index as int);
                if ok { assert forall|i: int| 0 <= i < result@.len() implies counted((#[trigger] result@[i]).0@, result@[i].1, max_win_size as int) && result@[i].1.more_sections by { if i < r0.len() { assert(result@[i] == r0[i]); } } }
            } /*-*/
            start_index = end_index;
            output_size = 0;
            num_add_bytes = 0;
        }
        /*+*/ proof { lemma_total_push(sops(ops@.subrange(start_index as int, end_index as int)), sop(*op)); } /*-*/
        if op.is_add() {
            num_add_bytes += op_size;
        }
        output_size += op_size;
    }
    }
    /*+*/ let ghost r0 = result@; proof { if ok { lemma_sub_ok(ops@, start_index as int, ops@.len() as int); } } /*-*/
    result.push((&ops[start_index..],SectionHeader{ num_operations: (ops.len()-start_index) as u32, num_add_bytes, output_size, compression_algo: 0, format: Format::Interleaved, more_sections: false }));
    /*+*/ proof {
        assert(result@.drop_last() =~= r0);
        assert(joined(result@) =~= ops@);
        if ok { assert forall|i: int| 0 <= i < result@.len() implies counted((#[trigger] result@[i]).0@, result@[i].1, max_win_size as int) && result@[i].1.more_sections == !(i == result@.len() - 1) by { if i < r0.len() { assert(result@[i] == r0[i]); } } }
    } /*-*/

    result
}
//@end

}
}
