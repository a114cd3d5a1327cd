// Merging patches (C09, C10).
pub mod smdiff_merger {
use vstd::prelude::*;
use std::io::{Read, Seek};
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::{AddOp, Run, CopySrc, SectionHeader, eaten, offers, same_stream};
use crate::smdiff_reader;
use crate::smdiff_reader::{Add, Op};
use crate::format::*;
use crate::patch::*;
use crate::op_lemmas::*;
use crate::reader::*;
verus! {
broadcast use group_streams;

//@item smdiff-merger/src/lib.rs type SparseOp
type SparseOp = (u64, Op);
//@end
// the derived Clone implementations, written out
impl Clone for Add {
    fn clone(&self) -> (r: Self) ensures r.bytes@ == self.bytes@ { let b = self.bytes.clone(); proof { assert(b@ =~= self.bytes@); } Add { bytes: b } }
}
impl Clone for Op {
    fn clone(&self) -> (r: Self) ensures sop(r) == sop(*self), r is Copy == (*self is Copy), (*self is Copy) ==> r == *self {
        match self {
            smdiff_common::Op::Run(run) => smdiff_common::Op::Run(Run { byte: run.byte, len: run.len }),
            smdiff_common::Op::Copy(copy) => smdiff_common::Op::Copy(*copy),
            smdiff_common::Op::Add(add) => smdiff_common::Op::Add(add.clone()),
        }
    }
}

/// the Clone implementation of the pair
pub fn vp_clone_sparse(e: &SparseOp) -> (r: SparseOp) ensures r.0 == e.0, sop(r.1) == sop(e.1), (e.1 is Copy) ==> r.1 == e.1, r.1 is Copy == (e.1 is Copy) { (e.0, e.1.clone()) }

// ---------------------------------------------------------------- clipping
//@item smdiff-merger/src/lib.rs trait MergeOp
trait MergeOp:Clone+Sized{
    /*+*/ spec fn mop(&self) -> SOp; /*-*/
    fn skip(&mut self,amt:u32) /*+*/
        requires amt < slen((*old(self)).mop()) <= 65535, fit((*old(self)).mop())
        ensures (*final(self)).mop() == clip((*old(self)).mop(), amt as int, slen((*old(self)).mop()) as int) /*-*/;
    fn trunc(&mut self,amt:u32) /*+*/
        requires amt < slen((*old(self)).mop()) <= 65535, fit((*old(self)).mop())
        ensures (*final(self)).mop() == clip((*old(self)).mop(), 0, slen((*old(self)).mop()) - amt) /*-*/;
}
//@end
impl MergeOp for Run {
    open spec fn mop(&self) -> SOp { SOp::Run { byte: self.byte, len: self.len } }
//@item smdiff-merger/src/lib.rs impl MergeOp for Run / fn skip !trait_member
    fn skip(&mut self,amt:u32) {
        self.len -= amt as u8;
    }
//@end
//@item smdiff-merger/src/lib.rs impl MergeOp for Run / fn trunc !trait_member
    fn trunc(&mut self,amt:u32) {
        self.len -= amt as u8;
    }
//@end
}
impl MergeOp for smdiff_common::Copy {
    open spec fn mop(&self) -> SOp { SOp::Copy { dict: self.src is Dict, addr: self.addr, len: self.len } }
//@item smdiff-merger/src/lib.rs impl MergeOp for Copy / fn skip !trait_member
    fn skip(&mut self,amt:u32) {
        self.addr += amt as u64;
        self.len -= amt as u16;
    }
//@end
//@item smdiff-merger/src/lib.rs impl MergeOp for Copy / fn trunc !trait_member
    fn trunc(&mut self,amt:u32) {
        /*+*/ assert(self.addr + 0 == self.addr); /*-*/
        self.len -= amt as u16;
    }
//@end
}
impl MergeOp for smdiff_reader::Add {
    open spec fn mop(&self) -> SOp { SOp::Add { bytes: self.bytes@ } }
//@item smdiff-merger/src/lib.rs impl MergeOp for Add / fn skip !trait_member
    fn skip(&mut self,amt:u32){
        self.bytes = self.bytes.split_off(amt as usize);
    }
//@end
//@item smdiff-merger/src/lib.rs impl MergeOp for Add / fn trunc !trait_member
    fn trunc(&mut self,amt:u32){
        /*+*/ assert(self.bytes@.take(self.bytes@.len() - amt) =~= self.bytes@.subrange(0, self.bytes@.len() - amt)); /*-*/
        self.bytes.truncate(self.bytes.len() - amt as usize);
    }
//@end
}
impl MergeOp for Op{
    open spec fn mop(&self) -> SOp { sop(*self) }
//@item smdiff-merger/src/lib.rs impl MergeOp for Op / fn skip !trait_member
    fn skip(&mut self,amt:u32){
        match self {
            Op::Run(run) => run.skip(amt),
            Op::Copy(copy) => copy.skip(amt),
            Op::Add(add) => add.skip(amt),
        }
    }
//@end
//@item smdiff-merger/src/lib.rs impl MergeOp for Op / fn trunc !trait_member
    fn trunc(&mut self,amt:u32){
        match self {
            Op::Run(run) => run.trunc(amt),
            Op::Copy(copy) => copy.trunc(amt),
            Op::Add(add) => add.trunc(amt),
        }
    }
//@end
}


// ---------------------------------------------------------------- operations with their positions
pub open spec fn sp(v: Seq<SparseOp>) -> Seq<SOp> { Seq::new(v.len(), |i: int| sop(v[i].1)) }
/// every operation carries the position of what it produces, the first one p0
pub open spec fn placed(v: Seq<SparseOp>, p0: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == p0 + total(sp(v).take(i)) }
pub open spec fn base(v: Seq<SparseOp>) -> int { if v.len() == 0 { 0 } else { v[0].0 as int } }
pub open spec fn covers(e: SparseOp, o: int) -> bool { e.0 <= o < e.0 + slen(sop(e.1)) }
/// no operation starts before the end of an earlier one
pub open spec fn ordered(v: Seq<SparseOp>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 + slen(sop(v[i].1)) <= (#[trigger] v[j]).0 }
/// positions and lengths can be represented
pub open spec fn bounded(v: Seq<SparseOp>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 + slen(sop(v[i].1)) <= u64::MAX && op_ok(sop(v[i].1)) }
pub proof fn lemma_placed_push(v0: Seq<SparseOp>, v1: Seq<SparseOp>, p0: int)
    requires placed(v0, p0), v1.len() == v0.len() + 1, v1.drop_last() == v0, v1.last().0 == p0 + total(sp(v0))
    ensures placed(v1, p0), sp(v1) == sp(v0).push(sop(v1.last().1)), total(sp(v1)) == total(sp(v0)) + slen(sop(v1.last().1))
{
    assert(sp(v1) =~= sp(v0).push(sop(v1.last().1)));
    lemma_total_push(sp(v0), sop(v1.last().1));
    assert forall|i: int| 0 <= i < v1.len() implies (#[trigger] v1[i]).0 == p0 + total(sp(v1).take(i)) by {
        assert(sp(v1).take(i) =~= sp(v0).take(i));
        if i < v0.len() { assert(v1[i] == v0[i]); } else { assert(sp(v0).take(i) =~= sp(v0)); }
    }
}
pub proof fn lemma_placed(v: Seq<SparseOp>, p0: int)
    requires placed(v, p0), p0 + total(sp(v)) <= u64::MAX, ops_ok(sp(v))
    ensures bounded(v), ordered(v), v.len() > 0 ==> base(v) == p0,
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 + slen(sop(v[i].1)) == p0 + total(sp(v).take(i + 1)),
{
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).0 + slen(sop(v[i].1)) == p0 + total(sp(v).take(i + 1)) && v[i].0 + slen(sop(v[i].1)) <= u64::MAX && op_ok(sop(v[i].1)) by {
        lemma_take_total(sp(v), i); lemma_take_mono(sp(v), i + 1, i + 1); assert(op_ok(sp(v)[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0 + slen(sop(v[i].1)) <= (#[trigger] v[j]).0 by { lemma_take_mono(sp(v), i + 1, j); }
    if v.len() > 0 { assert(sp(v).take(0) =~= Seq::empty()); }
}
/// some operation covers every position within
pub proof fn lemma_covered(v: Seq<SparseOp>, p0: int, o: int) -> (i: int)
    requires placed(v, p0), ops_ok(sp(v)), p0 <= o < p0 + total(sp(v)), p0 + total(sp(v)) <= u64::MAX
    ensures 0 <= i < v.len(), covers(v[i], o)
{
    assert(sp(v).take(v.len() as int) =~= sp(v));
    lemma_covered_upto(v, p0, o, v.len() as int)
}
proof fn lemma_covered_upto(v: Seq<SparseOp>, p0: int, o: int, n: int) -> (i: int)
    requires placed(v, p0), ops_ok(sp(v)), 0 <= n <= v.len(), p0 <= o < p0 + total(sp(v).take(n)), p0 + total(sp(v)) <= u64::MAX
    ensures 0 <= i < v.len(), covers(v[i], o)
    decreases n
{
    if n == 0 { assert(sp(v).take(0) =~= Seq::empty()); 0 } else {
        lemma_take_total(sp(v), n - 1);
        assert(v[n - 1].0 == p0 + total(sp(v).take(n - 1)));
        if o < v[n - 1].0 { lemma_covered_upto(v, p0, o, n - 1) } else { n - 1 }
    }
}

/// c[i] is what the comparison says about v[i]
pub open spec fn answers<T, F: FnMut(&T) -> std::cmp::Ordering>(v: Seq<T>, f: F, c: Seq<std::cmp::Ordering>) -> bool {
    c.len() == v.len() && forall|i: int| #![trigger v[i]] #![trigger c[i]] 0 <= i < v.len() ==> call_ensures(f, (&v[i],), c[i])
}
/// the order that binary search needs
pub open spec fn in_order(c: Seq<std::cmp::Ordering>) -> bool {
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() && c[i] is Greater ==> c[j] is Greater
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() && c[j] is Less ==> c[i] is Less
}
pub open spec fn no_equal(c: Seq<std::cmp::Ordering>) -> bool { forall|i: int| 0 <= i < c.len() ==> !((#[trigger] c[i]) is Equal) }
/// <[T]>::binary_search_by
#[verifier::external_body]
pub fn vp_binary_search_by<T, F: FnMut(&T) -> std::cmp::Ordering>(v: &[T], f: F) -> (r: Result<usize, usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],))
    ensures
        r matches Ok(i) ==> i < v@.len() && call_ensures(f, (&v@[i as int],), std::cmp::Ordering::Equal),
        r is Err ==> exists|c: Seq<std::cmp::Ordering>| #[trigger] answers(v@, f, c) && (in_order(c) ==> no_equal(c)),
{ v.binary_search_by(f) }
/// <[T]>::sort_by_key on the first component: a list in strict order is left as it is
#[verifier::external_body]
pub fn vp_sort_by_first<T>(v: &mut Vec<(usize, T)>)
    ensures (forall|i: int, j: int| 0 <= i < j < old(v)@.len() ==> (#[trigger] old(v)@[i]).0 < (#[trigger] old(v)@[j]).0) ==> final(v)@ == old(v)@
{ v.sort_by_key(|k| k.0); }
pub open spec fn side(e: SparseOp, o: int) -> std::cmp::Ordering {
    if covers(e, o) { std::cmp::Ordering::Equal } else if e.0 > o { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }
}

//@item smdiff-merger/src/lib.rs fn find_controlling_op
fn find_controlling_op(ops:&[SparseOp],o_pos:u64)-> /*+*/ (r: /*-*/ Option<usize> /*+*/)
    requires bounded(ops@)
    ensures
        r matches Some(i) ==> i < ops@.len() && covers(ops@[i as int], o_pos as int),
        r is None && ordered(ops@) ==> forall|i: int| 0 <= i < ops@.len() ==> !covers(#[trigger] ops@[i], o_pos as int),
/*-*/ {
    let inst = vp_binary_search_by(ops, |probe /*+*/: &SparseOp /*-*/| /*+*/ -> (r: std::cmp::Ordering)
        requires probe.0 + slen(sop(probe.1)) <= u64::MAX, op_ok(sop(probe.1))
        ensures r == side(*probe, o_pos as int) /*-*/
    {
        let end = probe.0 + probe.1.oal() as u64;
        if (probe.0 <= o_pos && o_pos < end){
            return std::cmp::Ordering::Equal
        }else if probe.0 > o_pos {
            return std::cmp::Ordering::Greater
        }else{
            return std::cmp::Ordering::Less
        }
    });
    if let Ok(idx) = inst {
        Some(idx)
    }else {
        None
    }
}
//@end


pub open spec fn covered(v: Seq<SparseOp>, start: int, len: int) -> bool { v.len() > 0 && base(v) <= start && start + len <= base(v) + total(sp(v)) }
/// s is the part of v that produces start..start+len
pub open spec fn slice_at(v: Seq<SparseOp>, s: Seq<SparseOp>, start: int, len: int, i: int) -> bool { placed(s, start) && is_cut(sp(v), sp(s), i, start - base(v), start + len - base(v)) }
pub open spec fn slice_of(v: Seq<SparseOp>, s: Seq<SparseOp>, start: int, len: int) -> bool { exists|i: int| #[trigger] slice_at(v, s, start, len, i) }
/// the slice so far: operations i.. of v, each one cut to start..end
pub open spec fn slicing(v: Seq<SparseOp>, s: Seq<SparseOp>, i: int, start: int, end: int) -> bool {
    &&& 0 <= i && i + s.len() <= v.len()
    &&& forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> sop(s[k].1) == cut(sp(v), i + k, start - base(v), end - base(v)) && s[k].0 == higher(start, v[i + k].0 as int)
}
/// the position and the length of the j-th operation
pub open spec fn pos(v: Seq<SparseOp>, j: int) -> int { v[j].0 as int }
pub open spec fn end_of(v: Seq<SparseOp>, j: int) -> int { v[j].0 + slen(sop(v[j].1)) }
/// what is needed about one operation of a list
pub proof fn lemma_at(v: Seq<SparseOp>, j: int)
    requires placed(v, base(v)), good(sp(v)), base(v) + total(sp(v)) <= u64::MAX, 0 <= j < v.len()
    ensures 1 <= slen(sop(v[j].1)) <= 65535, fit(sop(v[j].1)), op_ok(sop(v[j].1)), end_of(v, j) <= base(v) + total(sp(v)), base(v) <= pos(v, j), sp(v)[j] == sop(v[j].1),
        total(sp(v).take(j)) == pos(v, j) - base(v), total(sp(v).take(j + 1)) == end_of(v, j) - base(v), j + 1 < v.len() ==> pos(v, j + 1) == end_of(v, j),
        j + 1 == v.len() ==> end_of(v, j) == base(v) + total(sp(v)),
{
    lemma_placed(v, base(v));
    assert(slen(sp(v)[j]) >= 1 && op_ok(sp(v)[j]) && fit(sp(v)[j]));
    assert(v[j].0 == base(v) + total(sp(v).take(j)));
    lemma_take_total(sp(v), j);
    lemma_take_mono(sp(v), j + 1, j + 1);
    if j + 1 < v.len() { assert(v[j + 1].0 == base(v) + total(sp(v).take(j + 1))); } else { assert(sp(v).take(j + 1) =~= sp(v)); }
}
pub proof fn lemma_later(v: Seq<SparseOp>, i: int, j: int)
    requires placed(v, base(v)), good(sp(v)), base(v) + total(sp(v)) <= u64::MAX, 0 <= i <= j < v.len()
    ensures end_of(v, i) <= end_of(v, j)
    decreases j - i
{ if i < j { lemma_at(v, j - 1); lemma_at(v, j); lemma_later(v, i, j - 1); } }
/// the list of cut operations grows
pub proof fn lemma_slicing_push(v: Seq<SparseOp>, s0: Seq<SparseOp>, e: SparseOp, i: int, start: int, end: int)
    requires slicing(v, s0, i, start, end), placed(v, base(v)), good(sp(v)), base(v) + total(sp(v)) <= u64::MAX, i + s0.len() < v.len(),
        e.0 == higher(start, pos(v, (i + s0.len()) as int)), ({ let j = (i + s0.len()) as int; sop(e.1) == clip(sop(v[j].1), higher(start, pos(v, j)) - pos(v, j), lower(end, end_of(v, j)) - pos(v, j)) })
    ensures slicing(v, s0.push(e), i, start, end)
{
    hide(total); hide(placed); hide(good); hide(clip);
    let j = (i + s0.len()) as int;
    lemma_at(v, j);
    assert(sop(e.1) == cut(sp(v), j, start - base(v), end - base(v)));
}
/// the two cuts, one after the other
pub proof fn lemma_two_cuts(o: SOp, a: int, b: int)
    requires 0 <= a <= b <= slen(o), fit(o)
    ensures clip(o, 0, slen(o) as int) == o, ({ let c = clip(o, a, slen(o) as int); slen(c) == slen(o) - a && fit(c) && clip(c, 0, b - a) == clip(o, a, b) }), slen(clip(o, a, b)) == b - a
{ lemma_clip(o, 0, slen(o) as int); lemma_clip(o, a, slen(o) as int); lemma_clip_clip(o, a, b); lemma_clip(o, a, b); }
#[verifier::spinoff_prover]
pub proof fn lemma_slice_done(v: Seq<SparseOp>, s: Seq<SparseOp>, i: int, start: int, end: int)
    requires slicing(v, s, i, start, end), s.len() >= 1, start < end, placed(v, base(v)), good(sp(v)), base(v) + total(sp(v)) <= u64::MAX, covers(v[i], start), covers(v[i + s.len() - 1], end - 1)
    ensures slice_at(v, s, start, end - start, i), covered(v, start, end - start)
{
    hide(placed); hide(good); hide(total); hide(cut);
    let b = base(v);
    let l = i + s.len() - 1;
    lemma_at(v, i); lemma_at(v, l);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] sp(s)[k] == cut(sp(v), i + k, start - b, end - b) by { assert(sop(s[k].1) == sp(s)[k]); }
    assert(is_cut(sp(v), sp(s), i, start - b, end - b));
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 == start + total(sp(s).take(k)) by {
        lemma_at(v, i + k);
        if k == 0 { assert(sp(s).take(0) =~= Seq::empty()); assert(total(Seq::empty()) == 0) by { reveal(total); } }
        else { lemma_cut_total(sp(v), sp(s), i, start - b, end - b, k); lemma_cut_step(sp(v), sp(s), i, start - b, end - b, k); lemma_cut_step(sp(v), sp(s), i, start - b, end - b, k - 1); }
    }
    assert(placed(s, start)) by { reveal(placed); }
}

//@item smdiff-merger/src/lib.rs fn get_exact_slice
#[verifier::spinoff_prover]
fn get_exact_slice(ops:&[SparseOp],start:u64,len:u32)-> /*+*/ (r: /*-*/ Option<Vec<SparseOp>> /*+*/)
    requires len >= 1, placed(ops@, base(ops@)), good(sp(ops@)), base(ops@) + total(sp(ops@)) <= i64::MAX
    ensures match r { Some(s) => covered(ops@, start as int, len as int) && slice_of(ops@, s@, start as int, len as int), None => !covered(ops@, start as int, len as int) }
/*-*/ {
    /*+*/ hide(placed); hide(good); hide(total); hide(cut); hide(clip); hide(slicing); hide(bounded); hide(ordered); hide(slice_at); hide(fit);
    let ghost v = ops@; let ghost b = base(v); proof {
        assert(ops_ok(sp(v))) by { reveal(good); } lemma_placed(v, b);
        if covered(v, start as int, len as int) { let i = lemma_covered(v, b, start as int); assert(covers(v[i], start as int)); }
    } /*-*/
    let start_idx = find_controlling_op(ops,start)?;
    /*+*/ proof { lemma_at(v, start_idx as int); assert(ops.len() == v.len()); } /*-*/
    let end_pos = start + len as u64;
    let mut slice = Vec::new();
    let mut complete = false;
    /*+*/ proof { assert(slicing(v, slice@, start_idx as int, start as int, end_pos as int)) by { reveal(slicing); } } /*-*/

    for (o_start, inst) in /*+*/ it: /*-*/ ops[start_idx..].iter()
        /*+*/ invariant_except_break !complete, slice@.len() == it.index@,
            slice@.len() > 0 ==> end_of(v, start_idx + slice@.len() - 1) < end_pos,
        invariant
            v == ops@, b == base(v), start_idx < v.len(), covers(v[start_idx as int], start as int), end_pos == start + len, len >= 1, placed(v, b), good(sp(v)), b + total(sp(v)) <= i64::MAX,
            it.seq().len() == v.len() - start_idx, forall|i: int| 0 <= i < v.len() - start_idx ==> *(#[trigger] it.seq()[i]) == v[start_idx + i],
            slicing(v, slice@, start_idx as int, start as int, end_pos as int),
        ensures
            complete ==> slice@.len() >= 1 && start_idx + slice@.len() <= v.len() && covers(v[start_idx + slice@.len() - 1], end_pos - 1),
            !complete ==> slice@.len() == v.len() - start_idx && end_of(v, v.len() - 1) < end_pos, /*-*/
    {
        /*+*/ let ghost j = start_idx + it.index@; let ghost s0 = slice@; let ghost o0 = sop(v[j].1); let ghost a = higher(start as int, pos(v, j)) - pos(v, j); let ghost z = lower(end_pos as int, end_of(v, j)) - pos(v, j);
        proof { assert(v[j] == (*o_start, *inst)); lemma_at(v, j);
            if j > start_idx { lemma_at(v, j - 1); lemma_at(v, start_idx as int); lemma_later(v, start_idx as int, j - 1); }
            lemma_two_cuts(o0, a, z); } /*-*/
        let inst_len = inst.oal();
        let cur_inst_end = o_start + inst_len as u64;
        let mut cur_inst = inst.clone();
        let op_start = if &start > o_start {
            let skip = start - o_start;
            cur_inst.skip(skip as u32);
            start
        }else{*o_start};
        /*+*/ proof { assert(sop(cur_inst) == clip(o0, a, slen(o0) as int)); } /*-*/
        if end_pos < cur_inst_end {
            let trunc = cur_inst_end - end_pos;
            /*+*/ proof { assert(trunc == slen(o0) - z); assert(a < z); assert(slen(sop(cur_inst)) == slen(o0) - a); assert(trunc as u32 == trunc); assert(cur_inst.mop() == sop(cur_inst)); } /*-*/
            cur_inst.trunc(trunc as u32);
        }
        /*+*/ proof { assert(sop(cur_inst) == clip(o0, a, z)); } /*-*/
        vp_assert(cur_inst.oal() > 0);
        /*+*/ proof { lemma_slicing_push(v, s0, (op_start, cur_inst), start_idx as int, start as int, end_pos as int); } /*-*/
        slice.push((op_start,cur_inst));

        if cur_inst_end >= end_pos {
            complete = true;
            break;
        }
    }
    if !complete {
        /*+*/ proof { lemma_at(v, v.len() - 1); } /*-*/
        return None;
    }
    /*+*/ proof { lemma_slice_done(v, slice@, start_idx as int, start as int, end_pos as int); } /*-*/
    Some(slice)
}
//@end

// ---------------------------------------------------------------- statistics
//@item smdiff-merger/src/lib.rs struct Stats
struct Stats{
    pub add_bytes:usize,
    pub run_bytes:usize,
    pub copy_bytes:usize,
    pub add_cnt:usize,
    pub run_cnt:usize,
    pub copy_d_cnt:usize,
    pub copy_o_cnt:usize,
    pub output_size:usize,
}
//@end
// the derived Default implementation, written out
impl Default for Stats {
    fn default() -> (r: Self) ensures no_stats(r) { Stats { add_bytes: 0, run_bytes: 0, copy_bytes: 0, add_cnt: 0, run_cnt: 0, copy_d_cnt: 0, copy_o_cnt: 0, output_size: 0 } }
}
/// adds 0, runs 1, copies from the source 2, copies from the output 3
pub open spec fn kind(o: SOp) -> int { match o { SOp::Add { bytes } => 0, SOp::Run { byte, len } => 1, SOp::Copy { dict, addr, len } => if dict { 2 } else { 3 } } }
/// how many operations of a kind, and how many bytes they produce
pub open spec fn count_of(ops: Seq<SOp>, k: int) -> int decreases ops.len() { if ops.len() == 0 { 0 } else { count_of(ops.drop_last(), k) + (if kind(ops.last()) == k { 1int } else { 0 }) } }
pub open spec fn bytes_of(ops: Seq<SOp>, k: int) -> int decreases ops.len() { if ops.len() == 0 { 0 } else { bytes_of(ops.drop_last(), k) + (if kind(ops.last()) == k { slen(ops.last()) as int } else { 0 }) } }
pub open spec fn no_stats(s: Stats) -> bool { s.add_bytes == 0 && s.run_bytes == 0 && s.copy_bytes == 0 && s.add_cnt == 0 && s.run_cnt == 0 && s.copy_d_cnt == 0 && s.copy_o_cnt == 0 && s.output_size == 0 }
pub open spec fn stats_of(s: Stats, ops: Seq<SOp>) -> bool {
    &&& s.add_cnt == count_of(ops, 0) && s.run_cnt == count_of(ops, 1) && s.copy_d_cnt == count_of(ops, 2) && s.copy_o_cnt == count_of(ops, 3)
    &&& s.add_bytes == bytes_of(ops, 0) && s.run_bytes == bytes_of(ops, 1) && s.copy_bytes == bytes_of(ops, 2) + bytes_of(ops, 3) && s.output_size == total(ops)
}
pub open spec fn iff(b: bool, n: int) -> int { if b { n } else { 0 } }
/// t is s with one more operation of kind k and n bytes
pub open spec fn counted(s: Stats, t: Stats, k: int, n: int) -> bool {
    &&& t.add_cnt == s.add_cnt + iff(k == 0, 1) && t.run_cnt == s.run_cnt + iff(k == 1, 1) && t.copy_d_cnt == s.copy_d_cnt + iff(k == 2, 1) && t.copy_o_cnt == s.copy_o_cnt + iff(k == 3, 1)
    &&& t.add_bytes == s.add_bytes + iff(k == 0, n) && t.run_bytes == s.run_bytes + iff(k == 1, n) && t.copy_bytes == s.copy_bytes + iff(k == 2 || k == 3, n) && t.output_size == s.output_size + n
}
pub open spec fn room(s: Stats, n: int) -> bool {
    s.add_cnt < usize::MAX && s.run_cnt < usize::MAX && s.copy_d_cnt < usize::MAX && s.copy_o_cnt < usize::MAX && s.add_bytes + n <= usize::MAX && s.run_bytes + n <= usize::MAX && s.copy_bytes + n <= usize::MAX && s.output_size + n <= usize::MAX
}
pub proof fn lemma_counts(ops: Seq<SOp>)
    ensures count_of(ops, 0) + count_of(ops, 1) + count_of(ops, 2) + count_of(ops, 3) == ops.len(), bytes_of(ops, 0) + bytes_of(ops, 1) + bytes_of(ops, 2) + bytes_of(ops, 3) == total(ops),
        forall|k: int| count_of(ops, k) >= 0 && bytes_of(ops, k) >= 0
    decreases ops.len()
{
    if ops.len() > 0 { lemma_counts(ops.drop_last()); assert forall|k: int| count_of(ops, k) >= 0 && bytes_of(ops, k) >= 0 by { assert(count_of(ops.drop_last(), k) >= 0 && bytes_of(ops.drop_last(), k) >= 0); } }
}
pub proof fn lemma_counted(s: Stats, t: Stats, ops: Seq<SOp>, o: SOp)
    requires stats_of(s, ops), counted(s, t, kind(o), slen(o) as int)
    ensures stats_of(t, ops.push(o)), total(ops.push(o)) == total(ops) + slen(o)
{ assert(ops.push(o).drop_last() =~= ops); lemma_total_push(ops, o); }
pub proof fn lemma_room(s: Stats, ops: Seq<SOp>, n: int)
    requires stats_of(s, ops), total(ops) + n <= usize::MAX, ops.len() < usize::MAX, n >= 0
    ensures room(s, n)
{ lemma_counts(ops); assert(forall|k: int| count_of(ops, k) >= 0 && bytes_of(ops, k) >= 0); assert(count_of(ops, 0) >= 0 && count_of(ops, 1) >= 0 && count_of(ops, 2) >= 0 && count_of(ops, 3) >= 0 && bytes_of(ops, 0) >= 0 && bytes_of(ops, 1) >= 0 && bytes_of(ops, 2) >= 0 && bytes_of(ops, 3) >= 0); }
/// no bytes are copied: there is no copy
pub proof fn lemma_no_copies(ops: Seq<SOp>)
    requires full_ops(ops)
    ensures bytes_of(ops, 2) + bytes_of(ops, 3) == 0 ==> (forall|i: int| 0 <= i < ops.len() ==> kind(#[trigger] ops[i]) <= 1), bytes_of(ops, 2) >= 0, bytes_of(ops, 3) >= 0
    decreases ops.len()
{
    if ops.len() > 0 {
        let p = ops.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies slen(#[trigger] p[i]) >= 1 by { assert(slen(ops[i]) >= 1); }
        lemma_no_copies(p);
        assert(slen(ops[ops.len() - 1]) >= 1);
        if bytes_of(ops, 2) + bytes_of(ops, 3) == 0 {
            assert forall|i: int| 0 <= i < ops.len() implies kind(#[trigger] ops[i]) <= 1 by { if i < p.len() { assert(kind(p[i]) <= 1); } }
        }
    }
}
impl Stats {
//@item smdiff-merger/src/lib.rs impl Stats / fn new
    fn new() -> /*+*/ (r: /*-*/ Self /*+*/) ensures no_stats(r) /*-*/ {
        Default::default()
    }
//@end
//@item smdiff-merger/src/lib.rs impl Stats / fn add
    fn add(&mut self, len:usize) /*+*/ requires room(*old(self), len as int) ensures counted(*old(self), *final(self), 0, len as int) /*-*/ {
        self.add_bytes += len;
        self.add_cnt += 1;
        self.output_size += len;
    }
//@end
//@item smdiff-merger/src/lib.rs impl Stats / fn run
    fn run(&mut self, len:usize) /*+*/ requires room(*old(self), len as int) ensures counted(*old(self), *final(self), 1, len as int) /*-*/ {
        self.run_bytes += len;
        self.run_cnt += 1;
        self.output_size += len;
    }
//@end
//@item smdiff-merger/src/lib.rs impl Stats / fn copy_d
    fn copy_d(&mut self, len:usize) /*+*/ requires room(*old(self), len as int) ensures counted(*old(self), *final(self), 2, len as int) /*-*/ {
        self.copy_bytes += len;
        self.copy_d_cnt += 1;
        self.output_size += len;
    }
//@end
//@item smdiff-merger/src/lib.rs impl Stats / fn copy_o
    fn copy_o(&mut self, len:usize) /*+*/ requires room(*old(self), len as int) ensures counted(*old(self), *final(self), 3, len as int) /*-*/ {
        self.copy_bytes += len;
        self.copy_o_cnt += 1;
        self.output_size += len;
    }
//@end
//@item smdiff-merger/src/lib.rs impl Stats / fn has_copy
    fn has_copy(&self)-> /*+*/ (r: /*-*/ bool /*+*/) ensures r == (self.copy_bytes > 0) /*-*/ {
        self.copy_bytes > 0
    }
//@end
}

// ---------------------------------------------------------------- extraction
/// `read` are the sections read so far, in s; what is offered from the beginning continues where reading is now
pub open spec fn got<R: Read>(p: SecPred, r0: R, r: R, s: Seq<u8>, read: Seq<Sec>, done: bool) -> bool {
    &&& eaten(r0, r, s) && is_secs(p, s, read, done)
    &&& !done ==> forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) ==> exists|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r, u, us)
}
pub proof fn lemma_got_init<R: Read>(p: SecPred, r0: R)
    ensures got(p, r0, r0, Seq::empty(), Seq::empty(), false)
{ ax_rpos(r0); }
/// no section is offered where one is needed: no patch was offered
pub proof fn lemma_got_error<R: Read>(p: SecPred, r0: R, r: R, s: Seq<u8>, read: Seq<Sec>)
    requires got(p, r0, r, s, read, false), forall|u: Seq<u8>, h: SHead, ops: Seq<SOp>| p(u, h, ops) ==> !#[trigger] offers_sec(r, u, h, ops)
    ensures forall|t: Seq<u8>, secs: Seq<Sec>| !#[trigger] offers_patch(p, r0, t, secs)
{
    assert forall|t: Seq<u8>, secs: Seq<Sec>| !#[trigger] offers_patch(p, r0, t, secs) by {
        if offers_patch(p, r0, t, secs) {
            let (u, us) = choose|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r, u, us);
            let z = lemma_first_section(p, r, u, us);
            assert(offers_sec(r, z, us[0].h, us[0].ops));
        }
    }
}
pub proof fn lemma_got_step<R: Read>(p: SecPred, r0: R, r: R, r1: R, s: Seq<u8>, read: Seq<Sec>, z: Seq<u8>, x: Sec)
    requires got(p, r0, r, s, read, false), eaten(r, r1, z), p(z, x.h, x.ops), proper(p)
    ensures got(p, r0, r1, s + z, read.push(x), !x.h.more), flat_ops(read.push(x)) == flat_ops(read) + x.ops
{
    lemma_eaten_join(r0, r, r1, s, z);
    lemma_secs_push(p, s, read, z, x);
    if x.h.more {
        assert forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) implies exists|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r1, u, us) by {
            let (u, us) = choose|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r, u, us);
            lemma_next_section(p, r, r1, z, x.h, x.ops, u, us);
            assert(offers_patch(p, r1, u.skip(z.len() as int), us.skip(1)));
        }
    }
}
/// sections from the beginning of what is offered
pub open spec fn offers_secs<R: Read>(r: R, s: Seq<u8>, secs: Seq<Sec>, fin: bool) -> bool { offers(r, s) && is_secs(packed(), s, secs, fin) }
/// the sections do not produce more than 2^63 - 1 bytes
pub open spec fn small<R: Read>(r: R) -> bool { forall|s: Seq<u8>, secs: Seq<Sec>, fin: bool| #[trigger] offers_secs(r, s, secs, fin) ==> total(flat_ops(secs)) <= i64::MAX }
/// the extracted operations are those of the patch that is offered
pub open spec fn extracted<R: Read>(r: R, v: Seq<SparseOp>, st: Stats, s: Seq<u8>, secs: Seq<Sec>) -> bool {
    offers_patch(packed(), r, s, secs) && sp(v) == flat_ops(secs) && placed(v, 0) && stats_of(st, sp(v)) && ops_ok(sp(v)) && total(sp(v)) <= i64::MAX
}
pub open spec fn extracts<R: Read>(r: R, v: Seq<SparseOp>, st: Stats) -> bool { exists|s: Seq<u8>, secs: Seq<Sec>| #[trigger] extracted(r, v, st, s, secs) }
/// a vector can not be longer than the address space (std: at most isize::MAX bytes; SparseOp is not zero sized)
#[verifier::external_body]
proof fn ax_sparse_len(v: Vec<SparseOp>)
    ensures v@.len() <= isize::MAX
{ }
pub proof fn lemma_small<P: Read, R: Read>(r0: P, r: R, r1: R, z: Seq<u8>, read: Seq<Sec>, fin: bool)
    requires small(r0), r.rdata() == r0.rdata(), r.rpos() == r0.rpos(), eaten(r, r1, z), z.len() > 0, is_secs(packed(), z, read, fin)
    ensures total(flat_ops(read)) <= i64::MAX
{ ax_rpos(r); ax_rpos(r1); assert(offers_secs(r0, z, read, fin)); }
/// one more operation
pub proof fn lemma_extract_push(v0: Seq<SparseOp>, e: SparseOp, st0: Stats, st1: Stats, a: Seq<SOp>, ops: Seq<SOp>, k: int)
    requires placed(v0, 0), e.0 == total(sp(v0)), sp(v0) == a + ops.take(k), 0 <= k < ops.len(), sop(e.1) == ops[k], stats_of(st0, sp(v0)), counted(st0, st1, kind(ops[k]), slen(ops[k]) as int)
    ensures placed(v0.push(e), 0), sp(v0.push(e)) == a + ops.take(k + 1), stats_of(st1, sp(v0.push(e))), total(sp(v0.push(e))) == total(sp(v0)) + slen(ops[k])
{
    let v1 = v0.push(e);
    assert(v1.drop_last() =~= v0);
    lemma_placed_push(v0, v1, 0);
    lemma_counted(st0, st1, sp(v0), ops[k]);
    assert(sp(v0).push(ops[k]) =~= a + ops.take(k + 1));
}

//@item smdiff-merger/src/lib.rs fn extract_patch_instructions
fn extract_patch_instructions<R:Read + Seek>(patch:R)-> /*+*/ (r: /*-*/ std::io::Result<(Vec<SparseOp>, Stats)> /*+*/)
    requires small(patch)
    ensures match r {
        Ok(p) => extracts(patch, p.0@, p.1),
        Err(_) => patch.rreliable() ==> forall|s: Seq<u8>, secs: Seq<Sec>| !#[trigger] offers_patch(packed(), patch, s, secs),
    }
/*-*/ {
    /*+*/ let ghost p0 = patch; let ghost pk = packed(); let ghost mut z: Seq<u8> = Seq::empty(); let ghost mut secs: Seq<Sec> = Seq::empty(); /*-*/
    let mut output = Vec::new();
    let mut reader = SectionIterator::new(patch);
    let mut o_pos_start = 0;
    let mut stats = Stats::new();
    /*+*/ let ghost b0 = reader.source;
    proof { lemma_got_init(pk, b0); ax_rpos(b0); assert(sp(output@) =~= Seq::empty()); assert(stats_of(stats, sp(output@))); } /*-*/
    /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/
    loop
        /*+*/ invariant
            pk == packed(), small(p0), got(pk, b0, reader.source, z, secs, reader.done), b0.rdata() == p0.rdata(), b0.rpos() == p0.rpos(), b0.rreliable() == p0.rreliable(), same_stream(b0, reader.source),
            sp(output@) == flat_ops(secs), placed(output@, 0), stats_of(stats, sp(output@)), o_pos_start == total(sp(output@)), ops_ok(sp(output@)), total(sp(output@)) <= i64::MAX, p0 == patch,
        ensures reader.done,
        decreases reader.source.rdata().len() - reader.source.rpos(), /*-*/
    {
        /*+*/ let ghost g = reader.source; proof { lemma_packed_proper(); ax_rpos(g); } /*-*/
        match reader.next() {
            Some(res) => {
                /*+*/ proof {
                    if res is Err && p0.rreliable() {
                        assert forall|u: Seq<u8>, h: SHead, ops: Seq<SOp>| pk(u, h, ops) implies !#[trigger] offers_sec(g, u, h, ops) by { assert(!offers_csec(g, u, h, ops)); }
                        lemma_got_error(pk, b0, g, z, secs);
                        crate::smdiff_decoder::lemma_same_offers(p0, b0, pk);
                    }
                } /*-*/
                let (insts,_output_size) = res?;
                /*+*/ let ghost x = Sec { h: shead(_output_size), ops: sops(insts@) }; let ghost a = flat_ops(secs);
                proof {
                    let u = lemma_csec_read(g, reader.source, x.h, x.ops);
                    lemma_got_step(pk, b0, g, reader.source, z, secs, u, x);
                    z = z + u;
                    secs = secs.push(x);
                    lemma_small(p0, b0, reader.source, z, secs, reader.done);
                    lemma_total_join(a, x.ops);
                    assert(x.ops.take(0) =~= Seq::empty()); assert(a + x.ops.take(0) =~= a);
                } /*-*/
                for inst in /*+*/ it: /*-*/ insts
                    /*+*/ invariant
                        it.seq() == insts@, x.ops == sops(insts@), ops_ok(x.ops), total(a) + total(x.ops) <= i64::MAX,
                        sp(output@) == a + x.ops.take(it.index@), placed(output@, 0), stats_of(stats, sp(output@)), o_pos_start == total(sp(output@)), /*-*/
                {
                    /*+*/ let ghost k = it.index@; let ghost v0 = output@; let ghost st0 = stats; let ghost o = sop(inst);
                    proof {
                        assert(x.ops[k] == o); assert(op_ok(x.ops[k]));
                        lemma_take_total(x.ops, k); lemma_take_mono(x.ops, k + 1, k + 1); lemma_total_join(a, x.ops.take(k));
                        ax_sparse_len(output);
                        lemma_room(stats, sp(v0), slen(o) as int);
                    } /*-*/
                    let oal_len = inst.oal() as usize;
                    /*+*/ let ghost e = (o_pos_start, inst); /*-*/
                    match &inst{
                        smdiff_common::Op::Run(_) => {
                            output.push((o_pos_start,inst));
                            stats.run(oal_len);
                        },
                        smdiff_common::Op::Copy(c) => {
                            match c.src{
                                smdiff_common::CopySrc::Dict => {
                                    stats.copy_d(oal_len);
                                },
                                smdiff_common::CopySrc::Output => {
                                    stats.copy_o(oal_len);
                                },
                            }
                            output.push((o_pos_start,inst));
                        },
                        smdiff_common::Op::Add(_) => {
                            output.push((o_pos_start,inst));
                            stats.add(oal_len);
                        },
                    }
                    o_pos_start += oal_len as u64;
                    /*+*/ proof { lemma_extract_push(v0, e, st0, stats, a, x.ops, k); assert(output@ =~= v0.push(e)); } /*-*/
                }
                /*+*/ proof {
                    assert(x.ops.take(x.ops.len() as int) =~= x.ops);
                    assert forall|i: int| 0 <= i < sp(output@).len() implies op_ok(#[trigger] sp(output@)[i]) by { if i >= a.len() { assert(op_ok(x.ops[i - a.len()])); } else { assert(op_ok(a[i])); } }
                } /*-*/
            }
            _ => break
        }
    }
    /*+*/ proof { assert(offers(b0, z)); assert(offers_patch(pk, b0, z, secs)); crate::smdiff_decoder::lemma_same_offers(p0, b0, pk); assert(extracted(p0, output@, stats, z, secs)); assert(extracts(patch, output@, stats)); } /*-*/

    Ok((output,stats))
}
//@end

// ---------------------------------------------------------------- resolving copies from the output
/// copies from the output refer to what is already there
pub open spec fn backed(ops: Seq<SOp>) -> bool { forall|i: int| 0 <= i < ops.len() ==> back_at(#[trigger] ops[i], total(ops.take(i)) as int) }
pub open spec fn back_at(o: SOp, n: int) -> bool { match o { SOp::Copy { dict, addr, len } => !dict ==> addr + len <= n, _ => true } }
/// b does what a does, with any source
#[verifier::opaque]
pub open spec fn same(a: Seq<SOp>, b: Seq<SOp>) -> bool { forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(a, d, t) ==> yields(b, d, t) }
pub proof fn lemma_same_refl(a: Seq<SOp>) ensures same(a, a) { reveal(same); }
pub proof fn lemma_same_use(a: Seq<SOp>, b: Seq<SOp>, d: Option<Seq<u8>>, t: Seq<u8>) requires same(a, b), yields(a, d, t) ensures yields(b, d, t) { reveal(same); }
/// one more operation that both have
pub proof fn lemma_same_push(a: Seq<SOp>, i: int, b: Seq<SOp>)
    requires 0 <= i < a.len(), same(a.take(i), b)
    ensures same(a.take(i + 1), b.push(a[i]))
{
    reveal(same);
    assert(a.take(i + 1).drop_last() =~= a.take(i)); assert(b.push(a[i]).drop_last() =~= b);
    assert forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(a.take(i + 1), d, t) implies yields(b.push(a[i]), d, t) by {
        let o = run_ops(a.take(i), d, Seq::empty())->0;
        assert(yields(a.take(i), d, o));
    }
}
/// a copy from the output is what the part it copies consists of
pub proof fn lemma_same_deref(a: Seq<SOp>, i: int, b: Seq<SOp>, s: Seq<SOp>, j: int)
    requires 0 <= i < a.len(), same(a.take(i), b), good(b), flat(b), a[i] matches SOp::Copy { dict, addr, len } && !dict && is_cut(b, s, j, addr as int, addr + len)
    ensures same(a.take(i + 1), b + s)
{
    reveal(same);
    assert(a.take(i + 1).drop_last() =~= a.take(i));
    assert forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(a.take(i + 1), d, t) implies yields(b + s, d, t) by {
        let o = run_ops(a.take(i), d, Seq::empty())->0;
        assert(yields(a.take(i), d, o));
        match a[i] { SOp::Copy { dict, addr, len } => {
            lemma_cut_out(b, s, j, addr as int, addr + len, d, o, o);
            lemma_run_join(b, s, d, Seq::empty());
        }, _ => { } }
    }
}
pub proof fn lemma_good_join(a: Seq<SOp>, b: Seq<SOp>)
    requires good(a), good(b)
    ensures good(a + b), flat(a) && flat(b) ==> flat(a + b)
{
    assert forall|i: int| 0 <= i < (a + b).len() implies slen(#[trigger] (a + b)[i]) >= 1 && op_ok((a + b)[i]) && fit((a + b)[i]) && (flat(a) && flat(b) ==> own((a + b)[i])) by {
        if i < a.len() { assert(slen(a[i]) >= 1 && op_ok(a[i]) && fit(a[i])); } else { let k = i - a.len(); assert(slen(b[k]) >= 1 && op_ok(b[k]) && fit(b[k])); }
    }
}
pub proof fn lemma_good_push(a: Seq<SOp>, o: SOp)
    requires good(a), slen(o) >= 1, op_ok(o), fit(o)
    ensures good(a.push(o)), flat(a) && own(o) ==> flat(a.push(o))
{ assert(a.push(o) =~= a + seq![o]); lemma_good_join(a, seq![o]); }
pub proof fn lemma_good_at(a: Seq<SOp>, i: int) requires good(a), 0 <= i < a.len() ensures slen(a[i]) >= 1, op_ok(a[i]), fit(a[i]), slen(a[i]) <= 65535 { }
/// an operation is appended at its place
pub proof fn lemma_append(v: Seq<SparseOp>, e: SparseOp, c: Seq<SOp>)
    requires placed(v, 0), e.0 == total(sp(v)), sp(v) == c
    ensures placed(v.push(e), 0), sp(v.push(e)) == c.push(sop(e.1)), total(sp(v.push(e))) == total(c) + slen(sop(e.1))
{ assert(v.push(e).drop_last() =~= v); lemma_placed_push(v, v.push(e), 0); }
pub proof fn lemma_base0(v: Seq<SparseOp>) requires placed(v, 0) ensures base(v) == 0 { if v.len() > 0 { assert(sp(v).take(0) =~= Seq::empty()); assert(v[0].0 == 0 + total(sp(v).take(0))); } }
pub proof fn lemma_covered0(v: Seq<SparseOp>, start: int, len: int)
    requires placed(v, 0), start >= 0, len >= 1, start + len <= total(sp(v))
    ensures covered(v, start, len), placed(v, base(v))
{ lemma_base0(v); if v.len() == 0 { assert(sp(v) =~= Seq::empty()); } }

//@item smdiff-merger/src/lib.rs fn deref_copy_o
#[verifier::spinoff_prover]
fn deref_copy_o(extracted:Vec<SparseOp>)-> /*+*/ (r: /*-*/ Vec<SparseOp> /*+*/)
    requires good(sp(extracted@)), backed(sp(extracted@)), total(sp(extracted@)) <= i64::MAX
    ensures placed(r@, 0), good(sp(r@)), flat(sp(r@)), total(sp(r@)) == total(sp(extracted@)), same(sp(extracted@), sp(r@))
/*-*/ {
    /*+*/ hide(good); hide(flat); hide(placed); hide(is_cut); hide(total);
    let ghost a = sp(extracted@); let ghost ex = extracted@; /*-*/
    let mut output:Vec<SparseOp> = Vec::with_capacity(extracted.len());
    let mut cur_o_pos = 0;
    /*+*/ proof {
        assert(a.take(0) =~= Seq::empty()); assert(sp(output@) =~= Seq::empty()); lemma_same_refl(Seq::empty());
        assert(good(Seq::empty()) && flat(Seq::empty())) by { reveal(good); reveal(flat); } assert(placed(output@, 0)) by { reveal(placed); } assert(total(Seq::empty()) == 0) by { reveal(total); }
    } /*-*/
    for (_,op) in /*+*/ it: /*-*/ extracted
        /*+*/ invariant it.seq() == ex, a == sp(ex), good(a), backed(a), total(a) <= i64::MAX,
            placed(output@, 0), good(sp(output@)), flat(sp(output@)), same(a.take(it.index@), sp(output@)), total(sp(output@)) == total(a.take(it.index@)), cur_o_pos == total(sp(output@)), /*-*/
    {
        /*+*/ let ghost i = it.index@; let ghost b = sp(output@); proof { assert(a[i] == sop(op)); assert(back_at(a[i], total(a.take(i)) as int)); lemma_good_at(a, i); lemma_take_total(a, i); lemma_take_mono(a, i + 1, i + 1); } /*-*/
        match op {
            Op::Copy(copy) if matches!(copy.src, smdiff_common::CopySrc::Output) => {
                //let copy = copy.clone();
                let o_start = copy.addr;
                /*+*/ proof { lemma_covered0(output@, o_start as int, copy.len as int); lemma_base0(output@); } /*-*/
                let resolved = get_exact_slice(output.as_slice(), o_start, copy.len as u32).unwrap();
                /*+*/ let ghost rs = resolved@; let ghost s = sp(rs); let ghost j = choose|j: int| #[trigger] slice_at(output@, rs, o_start as int, copy.len as int, j);
                proof {
                    assert(is_cut(b, s, j, o_start as int, o_start + copy.len));
                    lemma_cut(b, s, j, o_start as int, o_start + copy.len);
                    lemma_same_deref(a, i, b, s, j);
                    lemma_good_join(b, s); lemma_total_join(b, s);
                    assert(s.take(0) =~= Seq::empty()); assert(b + s.take(0) =~= b);
                } /*-*/
                for (_,resloved_op) in /*+*/ jt: /*-*/ resolved
                    /*+*/ invariant jt.seq() == rs, s == sp(rs), good(s), total(b) + total(s) <= i64::MAX, placed(output@, 0), sp(output@) == b + s.take(jt.index@), cur_o_pos == total(sp(output@)), /*-*/
                {
                    /*+*/ let ghost k = jt.index@; let ghost v0 = output@; let ghost e = resloved_op;
                    proof { assert(s[k] == sop(resloved_op)); lemma_good_at(s, k); lemma_total_join(b, s.take(k)); lemma_take_total(s, k); lemma_take_mono(s, k + 1, k + 1); assert((b + s.take(k)).push(s[k]) =~= b + s.take(k + 1)); } /*-*/
                    let o_pos_start = cur_o_pos;
                    cur_o_pos += resloved_op.oal() as u64;
                    /*+*/ proof { lemma_append(v0, (o_pos_start, resloved_op), b + s.take(k)); } /*-*/
                    output.push((o_pos_start,resloved_op));
                }
                /*+*/ proof { assert(s.take(s.len() as int) =~= s); } /*-*/
            },
            _ => {
                /*+*/ proof { lemma_append(output@, (cur_o_pos, op), b); lemma_same_push(a, i, b); lemma_good_push(b, a[i]); } /*-*/
                let o_pos_start = cur_o_pos;
                cur_o_pos += op.oal() as u64;
                output.push((o_pos_start,op))

            },
        }
    }
    /*+*/ proof { assert(a.take(a.len() as int) =~= a); } /*-*/
    output
}
//@end

// ---------------------------------------------------------------- where copies from the source are
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
/// the positions of the copies from the source
pub open spec fn didx(ops: Seq<SOp>, shift: int) -> Seq<int>
    decreases ops.len()
{ if ops.len() == 0 { Seq::empty() } else { let p = didx(ops.drop_last(), shift); if from_src(ops.last()) { p.push(ops.len() - 1 + shift) } else { p } } }
pub open spec fn nsrc(ops: Seq<SOp>) -> int { didx(ops, 0).len() as int }
pub proof fn lemma_didx_step(ops: Seq<SOp>, i: int, shift: int)
    requires 0 <= i < ops.len()
    ensures didx(ops.take(i + 1), shift) == (if from_src(ops[i]) { didx(ops.take(i), shift).push(i + shift) } else { didx(ops.take(i), shift) })
{ assert(ops.take(i + 1).drop_last() =~= ops.take(i)); }
pub proof fn lemma_didx_shift(ops: Seq<SOp>, a: int)
    ensures didx(ops, a).len() == didx(ops, 0).len(), forall|k: int| 0 <= k < didx(ops, a).len() ==> #[trigger] didx(ops, a)[k] == didx(ops, 0)[k] + a
    decreases ops.len()
{ if ops.len() > 0 { lemma_didx_shift(ops.drop_last(), a); } }
pub proof fn lemma_didx_join(a: Seq<SOp>, b: Seq<SOp>, x: int)
    ensures didx(a + b, x) == didx(a, x) + didx(b, x + a.len())
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(didx(a, x) + didx(b, x + a.len()) =~= didx(a, x)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_didx_join(a, b.drop_last(), x);
        assert(didx(a + b, x) =~= didx(a, x) + didx(b, x + a.len()));
    }
}
/// the k-th position
pub proof fn lemma_didx_at(ops: Seq<SOp>, k: int) -> (i: int)
    requires 0 <= k < nsrc(ops)
    ensures i == didx(ops, 0)[k], 0 <= i < ops.len(), from_src(ops[i]), nsrc(ops.take(i)) == k
    decreases ops.len()
{
    let p = ops.drop_last();
    assert(ops.take(ops.len() - 1) =~= p);
    if k == nsrc(p) { ops.len() - 1 } else { let i = lemma_didx_at(p, k); assert(p.take(i) =~= ops.take(i)); i }
}
pub proof fn lemma_nsrc_mono(ops: Seq<SOp>, i: int, j: int)
    requires 0 <= i <= j <= ops.len()
    ensures nsrc(ops.take(i)) <= nsrc(ops.take(j)) <= nsrc(ops), nsrc(ops.take(i)) <= i
    decreases ops.len() - i, i
{
    if i > 0 { lemma_didx_step(ops, i - 1, 0); lemma_nsrc_low(ops, i); }
    if i < j { lemma_didx_step(ops, i, 0); lemma_nsrc_mono(ops, i + 1, j); } else if j < ops.len() { lemma_didx_step(ops, i, 0); lemma_nsrc_mono(ops, j + 1, j + 1); } else { assert(ops.take(j) =~= ops); }
}
proof fn lemma_nsrc_low(ops: Seq<SOp>, i: int)
    requires 0 <= i <= ops.len()
    ensures nsrc(ops.take(i)) <= i
    decreases i
{ if i > 0 { lemma_didx_step(ops, i - 1, 0); lemma_nsrc_low(ops, i - 1); } }
/// between two neighbouring positions there is no copy from the source
pub proof fn lemma_gap(ops: Seq<SOp>, m: int, i: int, j: int)
    requires 0 <= m <= j < i <= ops.len(), nsrc(ops.take(m)) == nsrc(ops.take(i))
    ensures !from_src(ops[j])
{ lemma_nsrc_mono(ops, m, j); lemma_nsrc_mono(ops, j + 1, i); lemma_didx_step(ops, j, 0); }
pub proof fn lemma_no_src_didx(ops: Seq<SOp>, x: int)
    requires forall|i: int| 0 <= i < ops.len() ==> !from_src(#[trigger] ops[i])
    ensures didx(ops, x) == Seq::<int>::empty()
    decreases ops.len()
{ if ops.len() > 0 { let p = ops.drop_last(); assert forall|i: int| 0 <= i < p.len() implies !from_src(#[trigger] p[i]) by { assert(!from_src(ops[i])); } lemma_no_src_didx(p, x); assert(!from_src(ops[ops.len() - 1])); } }
/// no copy from the source at all
pub open spec fn no_src(ops: Seq<SOp>) -> bool { forall|i: int| 0 <= i < ops.len() ==> !from_src(#[trigger] ops[i]) }
pub proof fn lemma_didx_empty(ops: Seq<SOp>)
    requires didx(ops, 0).len() == 0
    ensures no_src(ops)
    decreases ops.len()
{
    if ops.len() > 0 { let p = ops.drop_last(); lemma_didx_empty(p); assert forall|i: int| 0 <= i < ops.len() implies !from_src(#[trigger] ops[i]) by { if i < p.len() { assert(!from_src(p[i])); } } }
}

//@item smdiff-merger/src/lib.rs fn find_mergeable_copies
fn find_mergeable_copies(extract:&[SparseOp],shift:usize,dest:&mut Vec<usize>)
    /*+*/ requires shift + extract@.len() <= usize::MAX
    ensures ints((*final(dest))@) == ints((*old(dest))@) + didx(sp(extract@), shift as int) /*-*/
{
    /*+*/ let ghost ops = sp(extract@); let ghost d0 = (*dest)@; proof { assert(ops.take(0) =~= Seq::empty()); assert(ints(d0) =~= ints(d0) + didx(ops.take(0), shift as int)); assert(extract.len() == extract@.len()); } /*-*/
    {
    let mut vp_n: usize = 0;
    for (_,op) in /*+*/ it: /*-*/ extract.iter()
        /*+*/ invariant ops == sp(extract@), shift + extract@.len() <= usize::MAX, it.seq().len() == extract@.len(), forall|i: int| 0 <= i < extract@.len() ==> *(#[trigger] it.seq()[i]) == extract@[i],
            vp_n == it.index@, ints((*dest)@) == ints(d0) + didx(ops.take(it.index@), shift as int), d0 == (*old(dest))@, /*-*/
    {
        let i = vp_n;
        /*+*/ let ghost k = it.index@; let ghost v0 = (*dest)@; proof { assert(extract@[k] == *it.seq()[k]); assert(ops[k] == sop(*op)); lemma_didx_step(ops, k, shift as int); } /*-*/
        vp_n += 1;
        match op {
            Op::Copy(copy) if matches!(copy.src, smdiff_common::CopySrc::Dict) => {
                dest.push(i+shift);
                /*+*/ proof { assert(ints((*dest)@) =~= ints(v0).push(k + shift)); assert(ints(d0) + didx(ops.take(k), shift as int).push(k + shift) =~= (ints(d0) + didx(ops.take(k), shift as int)).push(k + shift)); } /*-*/
            },
            _ => (),
        }
    }
    }
    /*+*/ proof { assert(ops.take(ops.len() as int) =~= ops); } /*-*/
}
//@end

// ---------------------------------------------------------------- putting operations in place of the copies
/// every copy from the source is replaced: the k-th one by ins[k]
pub open spec fn expd(t: Seq<SOp>, ins: Seq<Seq<SOp>>) -> Seq<SOp>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { let p = t.drop_last(); expd(p, ins) + (if from_src(t.last()) { ins[nsrc(p)] } else { seq![t.last()] }) } }
pub proof fn lemma_expd_step(t: Seq<SOp>, i: int, ins: Seq<Seq<SOp>>)
    requires 0 <= i < t.len()
    ensures expd(t.take(i + 1), ins) == expd(t.take(i), ins) + (if from_src(t[i]) { ins[nsrc(t.take(i))] } else { seq![t[i]] })
{ assert(t.take(i + 1).drop_last() =~= t.take(i)); }
/// only the inserts up to there matter
pub proof fn lemma_expd_push(t: Seq<SOp>, i: int, ins: Seq<Seq<SOp>>, x: Seq<SOp>)
    requires 0 <= i <= t.len(), nsrc(t.take(i)) <= ins.len()
    ensures expd(t.take(i), ins.push(x)) == expd(t.take(i), ins)
    decreases i
{
    if i > 0 {
        lemma_nsrc_mono(t, i - 1, i); lemma_didx_step(t, i - 1, 0);
        lemma_expd_push(t, i - 1, ins, x);
        lemma_expd_step(t, i - 1, ins); lemma_expd_step(t, i - 1, ins.push(x));
    }
}
/// nothing is replaced where there is no copy from the source
pub proof fn lemma_expd_gap(t: Seq<SOp>, m: int, i: int, ins: Seq<Seq<SOp>>)
    requires 0 <= m <= i <= t.len(), nsrc(t.take(m)) == nsrc(t.take(i))
    ensures expd(t.take(i), ins) == expd(t.take(m), ins) + t.subrange(m, i), didx(expd(t.take(i), ins), 0) == didx(expd(t.take(m), ins), 0)
    decreases i
{
    if m == i { assert(t.subrange(m, i) =~= Seq::empty()); assert(expd(t.take(m), ins) + t.subrange(m, i) =~= expd(t.take(m), ins)); }
    else {
        lemma_gap(t, m, i, i - 1); lemma_didx_step(t, i - 1, 0);
        lemma_expd_gap(t, m, i - 1, ins);
        lemma_expd_step(t, i - 1, ins);
        let e = expd(t.take(i - 1), ins);
        assert(e + seq![t[i - 1]] =~= expd(t.take(m), ins) + t.subrange(m, i));
        assert(expd(t.take(i), ins).drop_last() =~= e);
    }
}
/// the replaced operations produce as much as before
pub open spec fn fitting(t: Seq<SOp>, ins: Seq<Seq<SOp>>) -> bool { ins.len() == nsrc(t) && part_fitting(t, ins) }
pub open spec fn part_fitting(t: Seq<SOp>, ins: Seq<Seq<SOp>>) -> bool { ins.len() <= nsrc(t) && forall|k: int| 0 <= k < ins.len() ==> total(#[trigger] ins[k]) == slen(t[didx(t, 0)[k]]) && good(ins[k]) && flat(ins[k]) }
pub proof fn lemma_expd_total(t: Seq<SOp>, i: int, ins: Seq<Seq<SOp>>)
    requires 0 <= i <= t.len(), part_fitting(t, ins), nsrc(t.take(i)) <= ins.len(), good(t), flat(t)
    ensures total(expd(t.take(i), ins)) == total(t.take(i)), good(expd(t.take(i), ins)), flat(expd(t.take(i), ins))
    decreases i
{
    if i == 0 { assert(t.take(0) =~= Seq::empty()); } else {
        lemma_nsrc_mono(t, i - 1, i); lemma_expd_total(t, i - 1, ins);
        lemma_expd_step(t, i - 1, ins); lemma_take_total(t, i - 1);
        let e = expd(t.take(i - 1), ins);
        lemma_good_at(t, i - 1);
        assert(own(t[i - 1]));
        if from_src(t[i - 1]) {
            lemma_nsrc_mono(t, i - 1, i); lemma_nsrc_mono(t, i, t.len() as int); lemma_didx_step(t, i - 1, 0);
            let k = nsrc(t.take(i - 1));
            let j = lemma_didx_at(t, k);
            lemma_same_index(t, i - 1, j);
            lemma_total_join(e, ins[k]); lemma_good_join(e, ins[k]);
        } else {
            let x = seq![t[i - 1]];
            assert(x.drop_last() =~= Seq::empty());
            assert(total(x) == slen(t[i - 1])) by { reveal_with_fuel(total, 2); }
            lemma_total_join(e, x); lemma_good_join(e, x);
        }
    }
}
proof fn lemma_same_index(t: Seq<SOp>, i: int, j: int)
    requires 0 <= i < t.len(), 0 <= j < t.len(), from_src(t[i]), from_src(t[j]), nsrc(t.take(i)) == nsrc(t.take(j))
    ensures i == j
{ if i < j { lemma_didx_step(t, i, 0); lemma_nsrc_mono(t, i + 1, j); } else if j < i { lemma_didx_step(t, j, 0); lemma_nsrc_mono(t, j + 1, i); } }

pub open spec fn ins_ops(v: Seq<(usize, Vec<SparseOp>)>) -> Seq<Seq<SOp>> { Seq::new(v.len(), |k: int| sp(v[k].1@)) }
pub open spec fn ins_at(v: Seq<(usize, Vec<SparseOp>)>) -> Seq<int> { Seq::new(v.len(), |k: int| v[k].0 as int) }
/// r[i] is what the conversion makes of the i-th operation at its position
pub open spec fn converted<T, F: FnMut(SparseOp) -> T>(f: F, ops: Seq<SOp>, r: Seq<T>) -> bool {
    r.len() == ops.len() && forall|i: int| 0 <= i < ops.len() ==> conv_at(f, #[trigger] ops[i], total(ops.take(i)) as int, r[i])
}
pub open spec fn conv_at<T, F: FnMut(SparseOp) -> T>(f: F, o: SOp, p: int, r: T) -> bool { exists|e: SparseOp| e.0 == p && sop(e.1) == o && #[trigger] call_ensures(f, (e,), r) }
pub proof fn lemma_converted_push<T, F: FnMut(SparseOp) -> T>(f: F, ops: Seq<SOp>, r: Seq<T>, e: SparseOp, x: T)
    requires converted(f, ops, r), e.0 == total(ops), call_ensures(f, (e,), x)
    ensures converted(f, ops.push(sop(e.1)), r.push(x)), total(ops.push(sop(e.1))) == total(ops) + slen(sop(e.1))
{
    let o = ops.push(sop(e.1));
    lemma_total_push(ops, sop(e.1));
    assert forall|i: int| 0 <= i < o.len() implies conv_at(f, #[trigger] o[i], total(o.take(i)) as int, r.push(x)[i]) by {
        assert(o.take(i) =~= ops.take(i));
        if i < ops.len() { assert(conv_at(f, ops[i], total(ops.take(i)) as int, r[i])); } else { assert(ops.take(i) =~= ops); assert(conv_at(f, sop(e.1), total(ops) as int, x)); }
    }
}

pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == old(s)@[old(s)@.len() - 1 - i];
/// what is left of t from the m-th on, the next one last
pub open spec fn rest_rev(v: Seq<SparseOp>, t: Seq<SparseOp>, m: int) -> bool { 0 <= m <= t.len() && v.len() == t.len() - m && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == t[t.len() - 1 - i] }
pub proof fn lemma_rest_pop(v: Seq<SparseOp>, t: Seq<SparseOp>, m: int)
    requires rest_rev(v, t, m), v.len() > 0
    ensures rest_rev(v.drop_last(), t, m + 1), v.last() == t[m], m < t.len()
{ assert forall|i: int| 0 <= i < v.drop_last().len() implies #[trigger] v.drop_last()[i] == t[t.len() - 1 - i] by { assert(v[i] == t[t.len() - 1 - i]); } assert(v[v.len() - 1] == t[m]); }
/// where the expansion is: m operations of t are done, k of them were replaced
pub open spec fn expanding<T, F: FnMut(SparseOp) -> T>(f: F, t: Seq<SOp>, ins: Seq<Seq<SOp>>, m: int, k: int, r: Seq<T>, p: int) -> bool {
    0 <= m <= t.len() && nsrc(t.take(m)) == k && converted(f, expd(t.take(m), ins), r) && p == total(expd(t.take(m), ins))
}
pub proof fn lemma_expanding_keep<T, F: FnMut(SparseOp) -> T>(f: F, t: Seq<SOp>, ins: Seq<Seq<SOp>>, m: int, k: int, r: Seq<T>, p: int, e: SparseOp, x: T)
    requires expanding(f, t, ins, m, k, r, p), m < t.len(), !from_src(t[m]), sop(e.1) == t[m], e.0 == p, call_ensures(f, (e,), x)
    ensures expanding(f, t, ins, m + 1, k, r.push(x), p + slen(t[m]))
{
    lemma_converted_push(f, expd(t.take(m), ins), r, e, x);
    lemma_expd_step(t, m, ins); lemma_didx_step(t, m, 0);
    assert(expd(t.take(m), ins) + seq![t[m]] =~= expd(t.take(m), ins).push(t[m]));
}
/// the same inside of an inserted list
pub open spec fn inserting<T, F: FnMut(SparseOp) -> T>(f: F, e: Seq<SOp>, s: Seq<SOp>, j: int, r: Seq<T>, p: int) -> bool { 0 <= j <= s.len() && converted(f, e + s.take(j), r) && p == total(e + s.take(j)) }
pub proof fn lemma_inserting<T, F: FnMut(SparseOp) -> T>(f: F, c: Seq<SOp>, s: Seq<SOp>, j: int, r: Seq<T>, p: int, e: SparseOp, x: T)
    requires inserting(f, c, s, j, r, p), j < s.len(), sop(e.1) == s[j], e.0 == p, call_ensures(f, (e,), x)
    ensures inserting(f, c, s, j + 1, r.push(x), p + slen(s[j]))
{
    lemma_converted_push(f, c + s.take(j), r, e, x);
    assert((c + s.take(j)).push(s[j]) =~= c + s.take(j + 1));
}
pub proof fn lemma_inserted<T, F: FnMut(SparseOp) -> T>(f: F, t: Seq<SOp>, ins: Seq<Seq<SOp>>, m: int, k: int, r: Seq<T>, p: int)
    requires 0 <= m < t.len(), from_src(t[m]), nsrc(t.take(m)) == k, inserting(f, expd(t.take(m), ins), ins[k], ins[k].len() as int, r, p)
    ensures expanding(f, t, ins, m + 1, k + 1, r, p)
{ lemma_expd_step(t, m, ins); lemma_didx_step(t, m, 0); assert(ins[k].take(ins[k].len() as int) =~= ins[k]); }
/// no position beyond what all operations produce
pub proof fn lemma_expd_bound(t: Seq<SOp>, ins: Seq<Seq<SOp>>, m: int)
    requires fitting(t, ins), good(t), flat(t), 0 <= m <= t.len()
    ensures total(expd(t.take(m), ins)) <= total(t), m < t.len() && !from_src(t[m]) ==> total(expd(t.take(m), ins)) + slen(t[m]) <= total(t),
        m < t.len() && from_src(t[m]) ==> nsrc(t.take(m)) < ins.len() && total(expd(t.take(m), ins)) + total(ins[nsrc(t.take(m))]) <= total(t),
{
    lemma_nsrc_mono(t, m, m); lemma_expd_total(t, m, ins); lemma_take_mono(t, m, m);
    if m < t.len() {
        lemma_take_total(t, m); lemma_take_mono(t, m + 1, m + 1);
        if from_src(t[m]) {
            lemma_didx_step(t, m, 0); lemma_nsrc_mono(t, m + 1, m + 1);
            let j = lemma_didx_at(t, nsrc(t.take(m))); lemma_same_index(t, m, j);
            assert(total(ins[nsrc(t.take(m))]) == slen(t[m]));
        }
    }
}
/// the lengths of the inserted lists, summed up
pub open spec fn lens(v: Seq<(usize, Vec<SparseOp>)>) -> int decreases v.len() { if v.len() == 0 { 0 } else { lens(v.drop_last()) + v.last().1@.len() } }
pub proof fn lemma_lens(t: Seq<SOp>, v: Seq<(usize, Vec<SparseOp>)>, k: int)
    requires fitting(t, ins_ops(v)), good(t), 0 <= k <= v.len()
    ensures lens(v.take(k)) <= (if k == 0 { 0 } else { total(t.take(didx(t, 0)[k - 1] + 1)) as int }), lens(v.take(k)) <= total(t), lens(v.take(k)) >= 0,
        k > 0 ==> lens(v.take(k)) == lens(v.take(k - 1)) + v[k - 1].1@.len(),
    decreases k
{
    if k == 0 { assert(v.take(0) =~= Seq::empty()); } else {
        assert(v.take(k).drop_last() =~= v.take(k - 1));
        lemma_lens(t, v, k - 1);
        let ins = ins_ops(v);
        let i = lemma_didx_at(t, k - 1);
        assert(good(ins[k - 1]) && total(ins[k - 1]) == slen(t[i]));
        lemma_count_bound(ins[k - 1]);
        lemma_take_total(t, i); lemma_take_mono(t, i + 1, i + 1);
        if k > 1 { let j = lemma_didx_at(t, k - 2); if j >= i { lemma_nsrc_mono(t, i, j); } lemma_take_mono(t, j + 1, i); }
    }
}
pub proof fn lemma_ins_order(t: Seq<SOp>)
    ensures forall|i: int, j: int| 0 <= i < j < nsrc(t) ==> (#[trigger] didx(t, 0)[i]) < (#[trigger] didx(t, 0)[j])
{
    assert forall|i: int, j: int| 0 <= i < j < nsrc(t) implies (#[trigger] didx(t, 0)[i]) < (#[trigger] didx(t, 0)[j]) by {
        let a = lemma_didx_at(t, i); let b = lemma_didx_at(t, j);
        if b <= a { lemma_nsrc_mono(t, b, a); }
    }
}

//@item smdiff-merger/src/lib.rs fn expand_to
#[verifier::spinoff_prover]
fn expand_to<T, F>(
    mut target: Vec<SparseOp>,
    inserts: Vec<(usize, Vec<SparseOp>)>,
    mut converter: F,
) -> /*+*/ (r: /*-*/ Vec<T> /*+*/) /*-*/
where
    F: FnMut(SparseOp) -> T,
    /*+*/ requires good(sp(target@)), flat(sp(target@)), total(sp(target@)) <= i64::MAX, ins_at(inserts@) == didx(sp(target@), 0), fitting(sp(target@), ins_ops(inserts@)), forall|e: SparseOp| call_requires(converter, (e,))
    ensures converted(converter, expd(sp(target@), ins_ops(inserts@)), r@) /*-*/
{
    /*+*/ hide(good); hide(flat); hide(converted); hide(expd); hide(fitting); hide(total); hide(didx);
    let ghost tt = target@; let ghost t = sp(tt); let ghost iv = inserts@; let ghost ins = ins_ops(iv); let ghost n = nsrc(t); let ghost f = converter;
    proof { ax_sparse_len(target); lemma_ins_order(t); assert(ins.len() == n) by { reveal(fitting); } assert(iv.take(0) =~= Seq::empty()); } /*-*/
    // Calculate the total number of elements to be inserted to determine the new vector's length.
    let total_insertions: usize = {
        let mut vp_s = 0;
        for (_, ins) in /*+*/ it: /*-*/ inserts.iter()
            /*+*/ invariant it.seq().len() == iv.len(), forall|i: int| 0 <= i < iv.len() ==> *(#[trigger] it.seq()[i]) == iv[i], vp_s == lens(iv.take(it.index@)), fitting(t, ins_ops(iv)), good(t), total(t) <= i64::MAX, /*-*/
        {
            /*+*/ proof { let k = it.index@; assert(*it.seq()[k] == iv[k]); lemma_lens(t, iv, k + 1); } /*-*/
            vp_s += ins.len();
        }
        vp_s
    };
    /*+*/ proof { lemma_lens(t, iv, iv.len() as int); assert(iv.take(iv.len() as int) =~= iv); } /*-*/
    let final_length = target.len() + total_insertions;

    // Allocate a new vector with the final required size.
    let mut result = Vec::with_capacity(final_length);

    // Sort inserts by position to process them in order.
    let mut sorted_inserts = inserts;
    /*+*/ proof { assert forall|i: int, j: int| 0 <= i < j < iv.len() implies (#[trigger] iv[i]).0 < (#[trigger] iv[j]).0 by { assert(ins_at(iv)[i] == iv[i].0 && ins_at(iv)[j] == iv[j].0); assert(didx(t, 0)[i] < didx(t, 0)[j]); } } /*-*/
    vp_sort_by_first(&mut sorted_inserts);

    target.reverse();
    // Trackers for the current position in the original vector and the inserts.
    let mut cur_idx = 0;
    let mut cur_o_pos = 0;
    /*+*/ proof { assert(t.take(0) =~= Seq::empty()); assert(expanding(f, t, ins, 0, 0, result@, 0)) by { reveal(converted); reveal(expd); reveal(total); reveal(didx); } } /*-*/
    for (insert_pos, insert_vec) in /*+*/ it: /*-*/ sorted_inserts
        /*+*/ invariant it.seq() == iv, f == converter, t == sp(tt), ins == ins_ops(iv), n == nsrc(t), ins.len() == n, t.len() <= isize::MAX, good(t), flat(t), total(t) <= i64::MAX, fitting(t, ins), ins_at(iv) == didx(t, 0),
            forall|e: SparseOp| call_requires(converter, (e,)), rest_rev(target@, tt, cur_idx as int), expanding(f, t, ins, cur_idx as int, it.index@, result@, cur_o_pos as int), /*-*/
    {
        /*+*/ let ghost k = it.index@; proof { lemma_didx_at(t, k); assert(ins_at(iv)[k] == iv[k].0); if cur_idx > insert_pos { lemma_nsrc_mono(t, insert_pos + 1, cur_idx as int); lemma_didx_step(t, insert_pos as int, 0); } } /*-*/
        // Copy elements from the current position up to the insert position.
        while cur_idx < insert_pos
            /*+*/ invariant f == converter, t == sp(tt), n == nsrc(t), ins.len() == n, good(t), flat(t), total(t) <= i64::MAX, fitting(t, ins), forall|e: SparseOp| call_requires(converter, (e,)),
                rest_rev(target@, tt, cur_idx as int), expanding(f, t, ins, cur_idx as int, k, result@, cur_o_pos as int), cur_idx <= insert_pos < t.len(), nsrc(t.take(insert_pos as int)) == k,
            ensures cur_idx == insert_pos,
            decreases insert_pos - cur_idx, /*-*/
        {
            /*+*/ let ghost m = cur_idx as int; let ghost r0 = result@; let ghost p0 = cur_o_pos as int; proof { lemma_rest_pop(target@, tt, m); lemma_gap(t, m, insert_pos as int, m); lemma_expd_bound(t, ins, m); lemma_good_at(t, m); } /*-*/
            match target.pop() {
                Some(mut elem) => {
                    let len = elem.1.oal();
                    elem.0 = cur_o_pos;
                    cur_o_pos += len as u64;
                    /*+*/ let ghost e = elem; proof { assert(sop(elem.1) == t[m]); } /*-*/
                    result.push(converter(elem));
                    /*+*/ proof { lemma_expanding_keep(f, t, ins, m, k, r0, p0, e, result@.last()); assert(result@ =~= r0.push(result@.last())); } /*-*/
                    cur_idx += 1;
                }
                None => break
            }
        }
        /*+*/ let ghost c = expd(t.take(cur_idx as int), ins); let ghost s = ins[k]; let ghost sv = insert_vec@;
        proof { lemma_expd_bound(t, ins, cur_idx as int); assert(s.take(0) =~= Seq::empty()); assert(c + s.take(0) =~= c); lemma_total_join(c, s); assert(s == sp(sv)); assert(good(s)) by { reveal(fitting); } } /*-*/
        // Insert the new elements.
        for mut elem in /*+*/ jt: /*-*/ insert_vec
            /*+*/ invariant jt.seq() == sv, s == sp(sv), good(s), f == converter, forall|e: SparseOp| call_requires(converter, (e,)), inserting(f, c, s, jt.index@, result@, cur_o_pos as int), total(c) + total(s) <= i64::MAX, /*-*/
        {
            /*+*/ let ghost j = jt.index@; let ghost r0 = result@; let ghost p0 = cur_o_pos as int; proof { assert(s[j] == sop(elem.1)); lemma_good_at(s, j); lemma_total_join(c, s.take(j)); lemma_take_total(s, j); lemma_take_mono(s, j + 1, j + 1); } /*-*/
            let len = elem.1.oal();
            elem.0 = cur_o_pos;
            cur_o_pos += len as u64;
            /*+*/ let ghost e = elem; /*-*/
            result.push(converter(elem));
            /*+*/ proof { lemma_inserting(f, c, s, j, r0, p0, e, result@.last()); assert(result@ =~= r0.push(result@.last())); } /*-*/
        }
        /*+*/ proof { lemma_rest_pop(target@, tt, cur_idx as int); lemma_inserted(f, t, ins, cur_idx as int, k, result@, cur_o_pos as int); } /*-*/
        target.pop();//we get rid of the expanded element.
        cur_idx += 1;
    }

    /*+*/ let ghost mut m = cur_idx as int; proof { assert(t.take(t.len() as int) =~= t); } /*-*/
    // After processing all inserts, copy any remaining elements from the original vector.
    loop
        /*+*/ invariant f == converter, t == sp(tt), n == nsrc(t), ins.len() == n, good(t), flat(t), total(t) <= i64::MAX, fitting(t, ins), forall|e: SparseOp| call_requires(converter, (e,)),
            rest_rev(target@, tt, m), expanding(f, t, ins, m, n, result@, cur_o_pos as int), t.take(t.len() as int) == t,
        ensures target@.len() == 0
        decreases target@.len(), /*-*/
    {
        /*+*/ let ghost r0 = result@; let ghost p0 = cur_o_pos as int; proof { if target@.len() > 0 { lemma_rest_pop(target@, tt, m); lemma_gap(t, m, t.len() as int, m); lemma_expd_bound(t, ins, m); lemma_good_at(t, m); } } /*-*/
        match target.pop() {
            Some(mut elem) => {
                let len = elem.1.oal();
                elem.0 = cur_o_pos;
                cur_o_pos += len as u64;
                /*+*/ let ghost e = elem; proof { assert(sop(elem.1) == t[m]); } /*-*/
                result.push(converter(elem));
                /*+*/ proof { lemma_expanding_keep(f, t, ins, m, n, r0, p0, e, result@.last()); assert(result@ =~= r0.push(result@.last())); m = m + 1; } /*-*/
            }
            _ => break
        }
    }
    result

}
//@end

// ---------------------------------------------------------------- merging
/// the operations apply to some source, and none is without output
pub open spec fn applies_to(ops: Seq<SOp>, d: Option<Seq<u8>>, t: Seq<u8>) -> bool { yields(ops, d, t) && (d matches Some(x) ==> x.len() <= u64::MAX) }
pub open spec fn valid_ops(ops: Seq<SOp>) -> bool { full_ops(ops) && exists|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] applies_to(ops, d, t) }
/// the domain: if a patch is offered, its operations are valid
pub open spec fn usable<R: Read>(r: R) -> bool { forall|s: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(packed(), r, s, secs) ==> valid_ops(flat_ops(secs)) }
pub proof fn lemma_valid(ops: Seq<SOp>)
    requires valid_ops(ops), ops_ok(ops), total(ops) <= u64::MAX
    ensures good(ops), backed(ops)
{
    let (d, t) = choose|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] applies_to(ops, d, t);
    assert forall|i: int| 0 <= i < ops.len() implies fit(#[trigger] ops[i]) by { lemma_take_mono(ops, i, i); lemma_back_at(ops, i, d, t); }
    assert forall|i: int| 0 <= i < ops.len() implies back_at(#[trigger] ops[i], total(ops.take(i)) as int) by { lemma_back_at(ops, i, d, t); }
}
proof fn lemma_back_at(ops: Seq<SOp>, i: int, d: Option<Seq<u8>>, t: Seq<u8>)
    requires applies_to(ops, d, t), 0 <= i < ops.len(), full_ops(ops), ops_ok(ops)
    ensures back_at(ops[i], total(ops.take(i)) as int), fit(ops[i]) || !own(ops[i]), total(ops.take(i)) <= u64::MAX ==> fit(ops[i])
{
    lemma_parts(ops, i, d, t);
    assert(slen(ops[i]) >= 1);
}

/// the operations are ready to be cut and used in place of copies: at their positions, without copies from the output
pub open spec fn ready(v: Seq<SparseOp>) -> bool { placed(v, 0) && clean(sp(v)) }
pub open spec fn clean(ops: Seq<SOp>) -> bool { good(ops) && flat(ops) && total(ops) <= i64::MAX }
/// the state of a merger
pub open spec fn merger_ok(m: Merger) -> bool { ready(m.terminal_patch@) && ints(m.terminal_copy_indices@) == didx(sp(m.terminal_patch@), 0) }
pub open spec fn done_ok(p: SummaryPatch) -> bool { clean(sops(p.0@)) && no_src(sops(p.0@)) }
/// `ops` does what the offered patch does
pub open spec fn stands_for_patch<R: Read>(r: R, ops: Seq<SOp>, s: Seq<u8>, secs: Seq<Sec>) -> bool { offers_patch(packed(), r, s, secs) && same(flat_ops(secs), ops) }
pub open spec fn does_patch<R: Read>(r: R, ops: Seq<SOp>) -> bool { exists|s: Seq<u8>, secs: Seq<Sec>| #[trigger] stands_for_patch(r, ops, s, secs) }
/// b does at once what p and then a do
#[verifier::opaque]
pub open spec fn joins(p: Seq<SOp>, a: Seq<SOp>, b: Seq<SOp>) -> bool {
    forall|d: Option<Seq<u8>>, mid: Seq<u8>, out: Seq<u8>| #![trigger yields(p, d, mid), yields(a, Some(mid), out)] yields(p, d, mid) && yields(a, Some(mid), out) ==> yields(b, d, out)
}
pub open spec fn joined_with<R: Read>(r: R, a: Seq<SOp>, b: Seq<SOp>, s: Seq<u8>, secs: Seq<Sec>) -> bool { offers_patch(packed(), r, s, secs) && joins(flat_ops(secs), a, b) }
pub open spec fn does_both<R: Read>(r: R, a: Seq<SOp>, b: Seq<SOp>) -> bool { exists|s: Seq<u8>, secs: Seq<Sec>| #[trigger] joined_with(r, a, b, s, secs) }
/// there is nothing that p could produce that a can be applied to
pub open spec fn never(p: Seq<SOp>, a: Seq<SOp>) -> bool { forall|d: Option<Seq<u8>>, mid: Seq<u8>, out: Seq<u8>| #[trigger] yields(p, d, mid) ==> !#[trigger] yields(a, Some(mid), out) }

/// s is what the copy o copies, in the predecessor p
pub open spec fn piece(p: Seq<SOp>, s: Seq<SOp>, o: SOp) -> bool { exists|c: int| #[trigger] piece_at(p, s, o, c) }
pub open spec fn piece_at(p: Seq<SOp>, s: Seq<SOp>, o: SOp, c: int) -> bool { match o { SOp::Copy { dict, addr, len } => dict && is_cut(p, s, c, addr as int, addr + len), _ => false } }
pub open spec fn pieces(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>) -> bool { ins.len() <= nsrc(t) && forall|k: int| 0 <= k < ins.len() ==> piece(p, #[trigger] ins[k], t[didx(t, 0)[k]]) }
pub proof fn lemma_pieces_fit(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>)
    requires pieces(p, t, ins), good(p), flat(p)
    ensures part_fitting(t, ins)
{
    assert forall|k: int| 0 <= k < ins.len() implies total(#[trigger] ins[k]) == slen(t[didx(t, 0)[k]]) && good(ins[k]) && flat(ins[k]) by {
        let o = t[didx(t, 0)[k]];
        let c = choose|c: int| #[trigger] piece_at(p, ins[k], o, c);
        match o { SOp::Copy { dict, addr, len } => { lemma_cut(p, ins[k], c, addr as int, addr + len); }, _ => { } }
    }
}
pub proof fn lemma_pieces_push(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>, s: Seq<SOp>, c: int)
    requires pieces(p, t, ins), ins.len() < nsrc(t), piece_at(p, s, t[didx(t, 0)[ins.len() as int]], c)
    ensures pieces(p, t, ins.push(s))
{
    let q = ins.push(s);
    assert forall|k: int| 0 <= k < q.len() implies piece(p, #[trigger] q[k], t[didx(t, 0)[k]]) by { if k < ins.len() { assert(piece(p, ins[k], t[didx(t, 0)[k]])); } }
}
/// with the pieces in place of the copies the predecessor is not needed
pub proof fn lemma_expd_run(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>, d: Option<Seq<u8>>, mid: Seq<u8>, i: int, o: Seq<u8>)
    requires good(p), flat(p), yields(p, d, mid), pieces(p, t, ins), ins.len() == nsrc(t), 0 <= i <= t.len(), run_ops(t.take(i), Some(mid), Seq::empty()) == Some(o)
    ensures yields(expd(t.take(i), ins), d, o)
    decreases i
{
    if i == 0 { assert(t.take(0) =~= Seq::empty()); } else {
        assert(t.take(i).drop_last() =~= t.take(i - 1));
        let o1 = run_ops(t.take(i - 1), Some(mid), Seq::empty())->0;
        lemma_expd_run(p, t, ins, d, mid, i - 1, o1);
        lemma_expd_step(t, i - 1, ins);
        let e = expd(t.take(i - 1), ins);
        let x = t[i - 1];
        if from_src(x) {
            lemma_nsrc_mono(t, i, i); lemma_didx_step(t, i - 1, 0);
            let k = nsrc(t.take(i - 1));
            let j = lemma_didx_at(t, k);
            lemma_same_index(t, i - 1, j);
            assert(piece(p, ins[k], t[didx(t, 0)[k]]));
            let c = choose|c: int| #[trigger] piece_at(p, ins[k], x, c);
            match x { SOp::Copy { dict, addr, len } => { lemma_cut_out(p, ins[k], c, addr as int, addr + len, d, mid, o1); }, _ => { } }
            lemma_run_join(e, ins[k], d, Seq::empty());
        } else {
            lemma_run_join(e, seq![x], d, Seq::empty());
            assert(seq![x].drop_last() =~= Seq::empty());
            reveal_with_fuel(run_ops, 2);
        }
    }
}
pub proof fn lemma_joins(q: Seq<SOp>, p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>)
    requires same(q, p), good(p), flat(p), pieces(p, t, ins), ins.len() == nsrc(t)
    ensures joins(q, t, expd(t, ins))
{
    reveal(joins);
    assert(t.take(t.len() as int) =~= t);
    assert forall|d: Option<Seq<u8>>, mid: Seq<u8>, out: Seq<u8>| #![trigger yields(q, d, mid), yields(t, Some(mid), out)] yields(q, d, mid) && yields(t, Some(mid), out) implies yields(expd(t, ins), d, out) by {
        lemma_same_use(q, p, d, mid);
        lemma_expd_run(p, t, ins, d, mid, t.len() as int, out);
    }
}
/// a copy beyond what the predecessor produces
pub proof fn lemma_never(q: Seq<SOp>, v: Seq<SparseOp>, t: Seq<SOp>, i: int)
    requires same(q, sp(v)), ready(v), good(t), 0 <= i < t.len(), t[i] matches SOp::Copy { dict, addr, len } && dict && !covered(v, addr as int, len as int)
    ensures never(q, t)
{
    lemma_base0(v);
    if v.len() == 0 { assert(sp(v) =~= Seq::empty()); }
    lemma_good_at(t, i);
    assert forall|d: Option<Seq<u8>>, mid: Seq<u8>, out: Seq<u8>| #[trigger] yields(q, d, mid) implies !#[trigger] yields(t, Some(mid), out) by {
        if yields(t, Some(mid), out) {
            lemma_same_use(q, sp(v), d, mid);
            lemma_total_is(sp(v), d, mid);
            lemma_parts(t, i, Some(mid), out);
        }
    }
}
/// at most one patch is offered
pub proof fn lemma_offered_once<R: Read>(r: R, s: Seq<u8>, secs: Seq<Sec>)
    requires offers_patch(packed(), r, s, secs)
    ensures forall|t: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(packed(), r, t, us) ==> us == secs
{
    lemma_packed_proper();
    lemma_offers_prefix(r, s);
    assert forall|t: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(packed(), r, t, us) implies us == secs by { lemma_offers_prefix(r, t); lemma_patch_unique(packed(), s, t, rest(r), secs, us); }
}
/// what the two conversions keep
pub open spec fn kept(e: Seq<SOp>, v: Seq<SparseOp>) -> bool { v.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> sop(v[i].1) == #[trigger] e[i] && v[i].0 == total(e.take(i)) }
pub proof fn lemma_kept(e: Seq<SOp>, v: Seq<SparseOp>)
    requires kept(e, v)
    ensures sp(v) == e, placed(v, 0)
{ assert forall|i: int| 0 <= i < e.len() implies #[trigger] sp(v)[i] == e[i] by { assert(sop(v[i].1) == e[i]); } assert(sp(v) =~= e); assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).0 == 0 + total(sp(v).take(i)) by { assert(sop(v[i].1) == e[i]); } }
pub proof fn lemma_ops_are(e: Seq<SOp>)
    ensures forall|w: Seq<Op>| (#[trigger] sops(w)).len() == e.len() && (forall|i: int| 0 <= i < e.len() ==> sop(w[i]) == #[trigger] e[i]) ==> sops(w) == e
{
    assert forall|w: Seq<Op>| (#[trigger] sops(w)).len() == e.len() && (forall|i: int| 0 <= i < e.len() ==> sop(w[i]) == #[trigger] e[i]) implies sops(w) == e by {
        assert forall|i: int| 0 <= i < e.len() implies sops(w)[i] == #[trigger] e[i] by { assert(sop(w[i]) == e[i]); }
        assert(sops(w) =~= e);
    }
}
/// where merging is: the copies before m are replaced, `n` operations are there now
pub open spec fn merging(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>, idx: Seq<int>, m: int, shift: int) -> bool {
    &&& 0 <= m <= t.len() && nsrc(t.take(m)) == ins.len() && pieces(p, t, ins)
    &&& idx == didx(expd(t.take(m), ins), 0) && shift + m == expd(t.take(m), ins).len()
}
pub proof fn lemma_merging_init(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>, idx: Seq<int>)
    requires ins.len() == 0, idx.len() == 0
    ensures merging(p, t, ins, idx, 0, 0)
{ assert(t.take(0) =~= Seq::empty()); assert(didx(Seq::empty(), 0) =~= idx); }
pub proof fn lemma_ready_at(v: Seq<SparseOp>, k: int) requires ready(v), 0 <= k < v.len() ensures v[k].0 == total(sp(v).take(k)) { assert(v[k].0 == 0 + total(sp(v).take(k))); }
pub proof fn lemma_merging_reach(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>, idx: Seq<int>, m: int, shift: int, i: int)
    requires merging(p, t, ins, idx, m, shift), m <= i <= t.len(), nsrc(t.take(i)) == ins.len()
    ensures merging(p, t, ins, idx, i, shift)
{ lemma_expd_gap(t, m, i, ins); }
pub proof fn lemma_merging_step(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>, idx: Seq<int>, m: int, shift: int, s: Seq<SOp>, c: int)
    requires merging(p, t, ins, idx, m, shift), m < t.len(), from_src(t[m]), didx(t, 0)[ins.len() as int] == m, ins.len() < nsrc(t), piece_at(p, s, t[m], c)
    ensures merging(p, t, ins.push(s), idx + didx(s, m + shift), m + 1, shift + s.len() - 1), s.len() >= 1
{
    lemma_pieces_push(p, t, ins, s, c);
    lemma_expd_push(t, m, ins, s);
    lemma_expd_step(t, m, ins.push(s));
    lemma_didx_step(t, m, 0);
    lemma_didx_join(expd(t.take(m), ins), s, 0);
}
/// the lengths can be represented
pub proof fn lemma_merging_bound(p: Seq<SOp>, t: Seq<SOp>, ins: Seq<Seq<SOp>>, idx: Seq<int>, m: int, shift: int, s: Seq<SOp>)
    requires merging(p, t, ins, idx, m, shift), good(p), flat(p), clean(t), m < t.len(), good(s), total(s) == slen(t[m])
    ensures m + shift + s.len() <= i64::MAX, shift + m >= 0
{
    let e = expd(t.take(m), ins);
    lemma_pieces_fit(p, t, ins);
    lemma_expd_total(t, m, ins);
    lemma_count_bound(e); lemma_count_bound(s);
    lemma_take_total(t, m); lemma_take_mono(t, m + 1, m + 1);
}

//@item smdiff-merger/src/lib.rs struct SummaryPatch
struct SummaryPatch(Vec<Op>);
//@end
//@item smdiff-merger/src/lib.rs struct Merger
struct Merger{
    terminal_patch: Vec<SparseOp>,
    terminal_copy_indices: Vec<usize>,
}
//@end

/// a kind that was not counted does not occur
pub proof fn lemma_no_kind(ops: Seq<SOp>, k: int)
    ensures count_of(ops, k) >= 0, count_of(ops, k) == 0 ==> (forall|i: int| 0 <= i < ops.len() ==> kind(#[trigger] ops[i]) != k)
    decreases ops.len()
{
    if ops.len() > 0 {
        let p = ops.drop_last();
        lemma_no_kind(p, k);
        if count_of(ops, k) == 0 {
            assert forall|i: int| 0 <= i < ops.len() implies kind(#[trigger] ops[i]) != k by { if i < p.len() { assert(kind(p[i]) != k); } }
        }
    }
}
/// no output copies: what was extracted can be used as it is
pub proof fn lemma_plain_ready(v: Seq<SparseOp>, st: Stats)
    requires placed(v, 0), good(sp(v)), stats_of(st, sp(v)), total(sp(v)) <= i64::MAX
    ensures st.copy_bytes == 0 || st.copy_o_cnt == 0 ==> ready(v), st.copy_bytes == 0 || st.copy_o_cnt == 0 && st.copy_d_cnt == 0 ==> no_src(sp(v))
{
    lemma_no_copies(sp(v)); lemma_no_kind(sp(v), 2); lemma_no_kind(sp(v), 3);
    if st.copy_bytes == 0 {
        assert forall|i: int| 0 <= i < sp(v).len() implies own(#[trigger] sp(v)[i]) && !from_src(sp(v)[i]) by { assert(kind(sp(v)[i]) <= 1); }
    }
    if st.copy_o_cnt == 0 {
        assert forall|i: int| 0 <= i < sp(v).len() implies own(#[trigger] sp(v)[i]) by { assert(kind(sp(v)[i]) != 3); }
        if st.copy_d_cnt == 0 {
            assert forall|i: int| 0 <= i < sp(v).len() implies !from_src(#[trigger] sp(v)[i]) by { assert(kind(sp(v)[i]) != 2); }
        }
    }
}
/// the operations without their positions
pub open spec fn stripped(v: Seq<SparseOp>, w: Seq<Op>, n: int) -> bool { w.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] w[i] == v[i].1 }
pub proof fn lemma_stripped(v: Seq<SparseOp>, w: Seq<Op>)
    requires stripped(v, w, v.len() as int)
    ensures sops(w) == sp(v)
{ assert(sops(w) =~= sp(v)); }

impl Merger {
//@item smdiff-merger/src/lib.rs impl Merger / fn new
    fn new<R:Read + Seek>(terminal_patch:R) -> /*+*/ (r: /*-*/ std::io::Result<Result<Merger,SummaryPatch>> /*+*/)
        requires small(terminal_patch), usable(terminal_patch)
        ensures match r {
            Ok(Ok(m)) => merger_ok(m) && does_patch(terminal_patch, sp(m.terminal_patch@)),
            Ok(Err(p)) => done_ok(p) && does_patch(terminal_patch, sops(p.0@)),
            Err(_) => terminal_patch.rreliable() ==> forall|s: Seq<u8>, secs: Seq<Sec>| !#[trigger] offers_patch(packed(), terminal_patch, s, secs),
        }
    /*-*/ {
        /*+*/ let ghost p0 = terminal_patch; /*-*/
        let (terminal_patch,stats) = extract_patch_instructions(terminal_patch)?;
        /*+*/ let ghost v0 = terminal_patch@; let ghost ops = sp(v0); let ghost x = choose|s: Seq<u8>, secs: Seq<Sec>| #[trigger] extracted(p0, v0, stats, s, secs);
        proof {
            assert(extracted(p0, v0, stats, x.0, x.1)); lemma_valid(ops);
            lemma_plain_ready(v0, stats);
        } /*-*/
        if stats.copy_bytes == 0{
            return Ok(Err(SummaryPatch({
                let mut vp_v = Vec::new();
                for s in /*+*/ it: /*-*/ terminal_patch
                    /*+*/ invariant it.seq() == v0, stripped(v0, vp_v@, it.index@), /*-*/
                {
                    vp_v.push(s.1);
                }
                /*+*/ proof { lemma_stripped(v0, vp_v@); lemma_same_refl(ops); assert(stands_for_patch(p0, sops(vp_v@), x.0, x.1)); } /*-*/
                vp_v
            })));
        }
        let mut terminal_copy_indices = Vec::new();
        //we for sure need to translate local. I think translate global isn't needed??
        //will need to check this.
        let terminal_patch = deref_copy_o(terminal_patch);
        /*+*/ let ghost v1 = terminal_patch@; proof { ax_sparse_len(terminal_patch); assert(stands_for_patch(p0, sp(v1), x.0, x.1)); } /*-*/
        find_mergeable_copies(&terminal_patch,0,&mut terminal_copy_indices);
        /*+*/ proof { assert(ints(terminal_copy_indices@) =~= didx(sp(v1), 0)); } /*-*/
        if terminal_copy_indices.is_empty(){
            //all copies were from the output, there is nothing left that a predecessor could resolve.
            return Ok(Err(SummaryPatch({
                let mut vp_v = Vec::new();
                for s in /*+*/ it: /*-*/ terminal_patch
                    /*+*/ invariant it.seq() == v1, stripped(v1, vp_v@, it.index@), /*-*/
                {
                    vp_v.push(s.1);
                }
                /*+*/ proof { lemma_stripped(v1, vp_v@); lemma_didx_empty(sp(v1)); } /*-*/
                vp_v
            })));
        }
        Ok(Ok(Merger{
            terminal_patch,
            terminal_copy_indices
        }))
    }
//@end
//@item smdiff-merger/src/lib.rs impl Merger / fn merge
    fn merge<R:Read + Seek>(self, predecessor_patch:R) -> /*+*/ (r: /*-*/ std::io::Result<Result<Merger,SummaryPatch>> /*+*/)
        requires merger_ok(self), small(predecessor_patch), usable(predecessor_patch)
        ensures match r {
            Ok(Ok(m)) => merger_ok(m) && does_both(predecessor_patch, sp(self.terminal_patch@), sp(m.terminal_patch@)),
            Ok(Err(p)) => done_ok(p) && does_both(predecessor_patch, sp(self.terminal_patch@), sops(p.0@)),
            Err(_) => predecessor_patch.rreliable() ==> forall|s: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(packed(), predecessor_patch, s, secs) ==> never(flat_ops(secs), sp(self.terminal_patch@)),
        }
    /*-*/ {
        /*+*/ hide(total); hide(good); hide(flat); hide(didx); hide(expd); hide(merging); hide(placed); hide(is_cut); hide(is_secs); hide(yields); hide(backed); hide(valid_ops); hide(stats_of); hide(no_src); /*-*/
        let mut vp_self = self;
        /*+*/ let ghost p0 = predecessor_patch; let ghost tv = self.terminal_patch@; let ghost t = sp(tv); let ghost n = nsrc(t); let ghost ix = self.terminal_copy_indices@;
        proof { assert(t.take(0) =~= Seq::empty()); assert(ix.len() == n) by { assert(ints(ix).len() == ix.len()); } assert(total(Seq::empty()) == 0) by { reveal(total); } } /*-*/
        vp_assert({
            let mut x = 0;
            for inst in /*+*/ it: /*-*/ vp_self.terminal_patch.iter()
                /*+*/ invariant it.seq().len() == tv.len(), forall|i: int| 0 <= i < tv.len() ==> *(#[trigger] it.seq()[i]) == tv[i], t == sp(tv), ready(tv), x == total(t.take(it.index@)), /*-*/
            {
                /*+*/ proof { let k = it.index@; assert(*it.seq()[k] == tv[k]); lemma_ready_at(tv, k); lemma_good_at(t, k); lemma_take_total(t, k); lemma_take_mono(t, k + 1, k + 1); } /*-*/
                vp_assert(x == inst.0);
                x += inst.1.oal() as u64;
            }
            true
        });
        let (mut predecessor_patch,stats) = extract_patch_instructions(predecessor_patch)?;
        /*+*/ let ghost v0 = predecessor_patch@; let ghost q = sp(v0); let ghost x = choose|s: Seq<u8>, secs: Seq<Sec>| #[trigger] extracted(p0, v0, stats, s, secs);
        proof {
            assert(extracted(p0, v0, stats, x.0, x.1)); lemma_valid(q); lemma_same_refl(q);
            lemma_plain_ready(v0, stats);
            lemma_offered_once(p0, x.0, x.1);
        } /*-*/
        if stats.has_copy(){
            predecessor_patch = deref_copy_o(predecessor_patch);
        }
        /*+*/ let ghost v = predecessor_patch@; let ghost p = sp(v); proof { assert(ready(v) && same(q, p)); lemma_base0(v); } /*-*/
        let mut terminal_copy_indices = Vec::with_capacity(vp_self.terminal_copy_indices.len());
        let mut inserts = Vec::with_capacity(vp_self.terminal_copy_indices.len());
        let mut shift = 0;
        /*+*/ let ghost mut m: int = 0;
        proof { assert(ints(terminal_copy_indices@) =~= Seq::empty()); assert(ins_ops(inserts@) =~= Seq::empty()); lemma_merging_init(p, t, ins_ops(inserts@), ints(terminal_copy_indices@)); assert(ins_at(inserts@) =~= didx(t, 0).take(0)); } /*-*/
        /*+*/ #[verifier::loop_isolation(false)] /*-*/
        for i in /*+*/ it: /*-*/ vp_self.terminal_copy_indices
            /*+*/ invariant it.seq() == ix, ints(ix) == didx(t, 0), ix.len() == n, n == nsrc(t), t == sp(tv), vp_self.terminal_patch@ == tv, clean(t), v == predecessor_patch@, p == sp(v), ready(v), same(q, p), base(v) == 0,
                merging(p, t, ins_ops(inserts@), ints(terminal_copy_indices@), m, shift as int), inserts@.len() == it.index@, ins_at(inserts@) == didx(t, 0).take(it.index@),
                it.index@ < n ==> m <= ix[it.index@], extracted(p0, v0, stats, x.0, x.1), q == sp(v0), tv == self.terminal_patch@, /*-*/
        {
            /*+*/ let ghost k = it.index@; let ghost ins = ins_ops(inserts@); let ghost iv = inserts@; let ghost idx = ints(terminal_copy_indices@);
            proof { lemma_didx_at(t, k); assert(ints(ix)[k] == ix[k]); lemma_merging_reach(p, t, ins, idx, m, shift as int, i as int); lemma_good_at(t, i as int); assert(t[i as int] == sop(tv[i as int].1)); } /*-*/
            let (_,op) = /*~tuple_clone| vp_self.terminal_patch[i].clone() |~*/ vp_clone_sparse(&vp_self.terminal_patch[i]) /*~*/;
            let copy = op.take_copy().unwrap();
            //this a src window copy that we need to resolve from the predecessor patch.
            vp_assert(matches!(copy.src, smdiff_common::CopySrc::Dict));
            let o_start = copy.addr; //ssp is o_pos, u is offset from that.
            /*+*/ proof { if !covered(v, o_start as int, copy.len as int) { lemma_never(q, v, t, i as int); } } /*-*/
            let resolved = match get_exact_slice(&predecessor_patch, o_start, copy.len as u32){
                Some(resolved) => resolved,
                None => return Err(vp_error())
            };
            /*+*/ let ghost rs = resolved@; let ghost s = sp(rs); let ghost c = choose|j: int| #[trigger] slice_at(v, rs, o_start as int, copy.len as int, j);
            proof {
                assert(piece_at(p, s, t[i as int], c));
                lemma_cut(p, s, c, o_start as int, o_start + copy.len);
                lemma_merging_bound(p, t, ins, idx, i as int, shift as int, s);
                lemma_merging_step(p, t, ins, idx, i as int, shift as int, s, c);
            } /*-*/
            find_mergeable_copies(&resolved, i+shift, &mut terminal_copy_indices);
            shift += resolved.len() - 1;
            inserts.push((i, resolved));
            /*+*/ proof {
                assert(ins_ops(inserts@) =~= ins.push(s));
                assert(ins_at(inserts@) =~= didx(t, 0).take(k + 1));
                m = i + 1;
                if k + 1 < n { lemma_ins_order(t); assert(didx(t, 0)[k] < didx(t, 0)[k + 1]); assert(ints(ix)[k + 1] == ix[k + 1]); }
            } /*-*/

        }
        /*+*/ let ghost ins = ins_ops(inserts@); let ghost e = expd(t, ins);
        proof {
            assert(t.take(t.len() as int) =~= t);
            assert(inserts@.len() == n && ins.len() == n);
            assert(m <= t.len()) by { reveal(merging); }
            lemma_merging_reach(p, t, ins, ints(terminal_copy_indices@), m, shift as int, t.len() as int);
            assert(pieces(p, t, ins) && ints(terminal_copy_indices@) == didx(e, 0)) by { reveal(merging); }
            assert(didx(t, 0).take(n) =~= didx(t, 0));
            lemma_pieces_fit(p, t, ins);
            lemma_joins(q, p, t, ins);
            lemma_expd_total(t, t.len() as int, ins);
        } /*-*/
        //now we expand the old copy values with the derefd instructions.
        /*+*/ proof { assert(ints(terminal_copy_indices@).len() == terminal_copy_indices@.len()); if terminal_copy_indices@.len() == 0 { lemma_didx_empty(e); } assert(joined_with(p0, t, e, x.0, x.1)); lemma_ops_are(e); } /*-*/
        if terminal_copy_indices.is_empty(){

            Ok(Err(SummaryPatch(expand_to(vp_self.terminal_patch, inserts, /*~closure_block| |s|s.1 |~*/ |s: SparseOp| -> (r: Op) ensures r == s.1 { s.1 } /*~*/))))
        }else{
            vp_self.terminal_patch = expand_to(vp_self.terminal_patch, inserts, /*~closure_block| |s|s |~*/ |s: SparseOp| -> (r: SparseOp) ensures r == s { s } /*~*/);
            /*+*/ proof { lemma_kept(e, vp_self.terminal_patch@); } /*-*/
            vp_self.terminal_copy_indices = terminal_copy_indices;
            Ok(Ok(vp_self))
        }
    }
//@end
//@item smdiff-merger/src/lib.rs impl Merger / fn finish
    fn finish(self)-> /*+*/ (r: /*-*/ SummaryPatch /*+*/)
        requires merger_ok(self)
        ensures sops(r.0@) == sp(self.terminal_patch@), clean(sops(r.0@)) /*-*/
    {
        SummaryPatch({
            let mut vp_v = Vec::new();
            for s in /*+*/ it: /*-*/ self.terminal_patch
                /*+*/ invariant it.seq() == self.terminal_patch@, stripped(self.terminal_patch@, vp_v@, it.index@), /*-*/
            {
                vp_v.push(s.1);
            }
            /*+*/ proof { lemma_stripped(self.terminal_patch@, vp_v@); } /*-*/
            vp_v
        })
    }
//@end
}
impl SummaryPatch {
//@item smdiff-merger/src/lib.rs impl SummaryPatch / fn take_ops
    fn take_ops(self)-> /*+*/ (r: /*-*/ Vec<Op> /*+*/) ensures r@ == self.0@ /*-*/ {
        self.0
    }
//@end
}

}
}
