// Transcoding patches (C08, C11).
pub mod transcoder {
use vstd::prelude::*;
use std::io::{Read, Seek, Write};
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::*;
use crate::smdiff_common::{Copy, CopySrc, MAX_INST_SIZE, MAX_RUN_LEN};
use crate::smdiff_reader::{Add, Op};
use crate::format::*;
use crate::patch::*;
use crate::op_lemmas::*;
use crate::reader::*;
use crate::sections::*;
use crate::smdiff_writer::*;
use crate::smdiff_encoder::*;
use crate::smdiff_merger::*;
use crate::mwrite::*;
verus! {

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> cloned(s@[i], #[trigger] r@[i]);

// comparing references compares what they refer to (std)
pub axiom fn ax_mut_eq() ensures <&mut u8 as vstd::std_specs::cmp::PartialEqSpec<&mut u8>>::obeys_eq_spec(), forall|a: &mut u8, b: &mut u8| #[trigger] <&mut u8 as vstd::std_specs::cmp::PartialEqSpec<&mut u8>>::eq_spec(&a, &b) == (*a == *b);

//@item smdiff-merger/src/transcoder.rs enum InnerOp
enum InnerOp{
    Add(Vec<u8>),
    Copy(smdiff_common::Copy), //we can't do anything with copy operations.
    Run{byte: u8, len: usize, output_start_pos: usize},
}
//@end

/// a vector can not be longer than the address space (std: at most isize::MAX bytes; InnerOp is not zero sized)
#[verifier::external_body]
proof fn ax_inner_len(v: Vec<InnerOp>)
    ensures v@.len() <= isize::MAX
{ }
pub open spec fn rep(b: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| b) }
// ---------------------------------------------------------------- what the inner operations produce
pub open spec fn iout(o: InnerOp, d: Option<Seq<u8>>, out: Seq<u8>) -> Option<Seq<u8>> {
    match o {
        InnerOp::Add(b) => Some(b@),
        InnerOp::Copy(c) => op_out(sop(smdiff_common::Op::<Add>::Copy(c)), d, out),
        InnerOp::Run { byte, len, output_start_pos } => if len == 0 || output_start_pos == out.len() { Some(rep(byte, len as int)) } else { None },
    }
}
pub open spec fn irun(v: Seq<InnerOp>, d: Option<Seq<u8>>) -> Option<Seq<u8>>
    decreases v.len()
{
    if v.len() == 0 { Some(Seq::empty()) } else {
        match irun(v.drop_last(), d) { None => None, Some(o) => match iout(v.last(), d, o) { None => None, Some(b) => Some(o + b) } }
    }
}
pub open spec fn iyields(v: Seq<InnerOp>, d: Option<Seq<u8>>, t: Seq<u8>) -> bool { irun(v, d) == Some(t) }
/// b produces what a produces
#[verifier::opaque]
pub open spec fn isame(a: Seq<InnerOp>, b: Seq<InnerOp>) -> bool { forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] iyields(a, d, t) ==> iyields(b, d, t) }
pub proof fn lemma_isame_refl(a: Seq<InnerOp>) ensures isame(a, a) { reveal(isame); }
pub proof fn lemma_isame_trans(a: Seq<InnerOp>, b: Seq<InnerOp>, c: Seq<InnerOp>) requires isame(a, b), isame(b, c) ensures isame(a, c) { reveal(isame); }
/// no copy is empty
pub open spec fn full_copies(v: Seq<InnerOp>) -> bool { forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]) matches InnerOp::Copy(c) ==> c.len >= 1) }
/// the runs from k on are as short as those of operations, and not empty
pub open spec fn short_runs(v: Seq<InnerOp>, k: int) -> bool { forall|i: int| k <= i < v.len() ==> ((#[trigger] v[i]) matches InnerOp::Run { byte, len, output_start_pos } ==> 1 <= len <= 255) }
/// w is v with the operations i and i + 1 put together
pub open spec fn put_together(v: Seq<InnerOp>, w: Seq<InnerOp>, i: int) -> bool {
    &&& w.len() == v.len() && 0 <= i && i + 1 < v.len()
    &&& forall|k: int| 0 <= k < v.len() && k != i && k != i + 1 ==> #[trigger] w[k] == v[k]
    &&& match (v[i], v[i + 1], w[i], w[i + 1]) {
        (InnerOp::Add(a), InnerOp::Add(b), InnerOp::Add(c), InnerOp::Add(e)) => c@ == a@ + b@ && e@.len() == 0,
        (InnerOp::Run { byte: b1, len: l1, output_start_pos: p1 }, InnerOp::Run { byte: b2, len: l2, output_start_pos: p2 }, InnerOp::Run { byte: b3, len: l3, output_start_pos: p3 }, InnerOp::Run { byte: b4, len: l4, output_start_pos: p4 }) =>
            b1 == b2 && b3 == b1 && b4 == b2 && l3 == l1 + l2 && l4 == 0 && p3 == p1 && l1 >= 1,
        _ => false,
    }
}
proof fn lemma_from(v: Seq<InnerOp>, w: Seq<InnerOp>, k: int, m: int, d: Option<Seq<u8>>)
    requires v.len() == w.len(), 0 <= k <= m <= v.len(), irun(v.take(k), d) is Some ==> irun(w.take(k), d) == irun(v.take(k), d), forall|j: int| k <= j < v.len() ==> #[trigger] w[j] == v[j]
    ensures irun(v.take(m), d) is Some ==> irun(w.take(m), d) == irun(v.take(m), d)
    decreases m - k
{
    if m > k {
        lemma_from(v, w, k, m - 1, d);
        assert(v.take(m).drop_last() =~= v.take(m - 1));
        assert(w.take(m).drop_last() =~= w.take(m - 1));
        assert(w[m - 1] == v[m - 1]);
    }
}
proof fn lemma_two(v: Seq<InnerOp>, w: Seq<InnerOp>, i: int, d: Option<Seq<u8>>, o: Seq<u8>)
    requires put_together(v, w, i), iout(v[i], d, o) is Some, iout(v[i + 1], d, o + iout(v[i], d, o)->0) is Some
    ensures iout(w[i], d, o) == Some(iout(v[i], d, o)->0 + iout(v[i + 1], d, o + iout(v[i], d, o)->0)->0), iout(w[i + 1], d, o + iout(w[i], d, o)->0) == Some(Seq::<u8>::empty())
{
    let x = iout(v[i], d, o)->0; let y = iout(v[i + 1], d, o + x)->0;
    assert(iout(w[i], d, o) is Some);
    assert(iout(w[i], d, o)->0 =~= x + y);
    assert(iout(w[i + 1], d, o + iout(w[i], d, o)->0)->0 =~= Seq::empty());
}
proof fn lemma_irun_push(v: Seq<InnerOp>, i: int, d: Option<Seq<u8>>)
    requires 0 <= i < v.len()
    ensures irun(v.take(i + 1), d) == (match irun(v.take(i), d) { None => None, Some(o) => match iout(v[i], d, o) { None => None, Some(b) => Some(o + b) } })
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
pub proof fn lemma_put_together(v: Seq<InnerOp>, w: Seq<InnerOp>, i: int)
    requires put_together(v, w, i)
    ensures isame(v, w), full_copies(v) ==> full_copies(w)
{
    reveal(isame);
    assert forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] iyields(v, d, t) implies iyields(w, d, t) by {
        lemma_irun_push(v, i, d); lemma_irun_push(v, i + 1, d); lemma_irun_push(w, i, d); lemma_irun_push(w, i + 1, d);
        assert(v.take(i) =~= w.take(i));
        if irun(v.take(i + 2), d) is Some {
            let o = irun(v.take(i), d)->0;
            lemma_two(v, w, i, d, o);
            let x = iout(v[i], d, o)->0; let y = iout(v[i + 1], d, o + x)->0;
            assert(o + x + y =~= o + (x + y) + Seq::<u8>::empty());
        }
        lemma_from(v, w, i + 2, v.len() as int, d);
        assert(v.take(v.len() as int) =~= v); assert(w.take(w.len() as int) =~= w);
    }
    if full_copies(v) { assert forall|k: int| 0 <= k < w.len() implies ((#[trigger] w[k]) matches InnerOp::Copy(c) ==> c.len >= 1) by { if k != i && k != i + 1 { assert(w[k] == v[k]); assert(v[k] matches InnerOp::Copy(c) ==> c.len >= 1); } } }
}

// ---------------------------------------------------------------- from the operations of the patch
/// the inner operation for an operation and its position
pub open spec fn inner_of(s: SparseOp, o: InnerOp) -> bool {
    match (sop(s.1), o) {
        (SOp::Add { bytes }, InnerOp::Add(b)) => b@ == bytes,
        (SOp::Run { byte, len }, InnerOp::Run { byte: b, len: l, output_start_pos }) => b == byte && l == len && output_start_pos == s.0,
        (SOp::Copy { dict, addr, len }, InnerOp::Copy(c)) => sop(smdiff_common::Op::<Add>::Copy(c)) == sop(s.1),
        _ => false,
    }
}
pub open spec fn inner_ops(v: Seq<SparseOp>, w: Seq<InnerOp>, n: int) -> bool { w.len() == n && forall|i: int| 0 <= i < n ==> inner_of(v[i], #[trigger] w[i]) }
proof fn lemma_inner_run(v: Seq<SparseOp>, w: Seq<InnerOp>, n: int, d: Option<Seq<u8>>)
    requires inner_ops(v, w, v.len() as int), placed(v, 0), 0 <= n <= v.len(), run_ops(sp(v).take(n), d, Seq::empty()) is Some
    ensures irun(w.take(n), d) == run_ops(sp(v).take(n), d, Seq::empty()), irun(w.take(n), d)->0.len() == total(sp(v).take(n))
    decreases n
{
    if n > 0 {
        assert(w.take(n).drop_last() =~= w.take(n - 1));
        assert(sp(v).take(n).drop_last() =~= sp(v).take(n - 1));
        lemma_inner_run(v, w, n - 1, d);
        assert(inner_of(v[n - 1], w[n - 1]));
        assert(v[n - 1].0 == 0 + total(sp(v).take(n - 1)));
        let o = run_ops(sp(v).take(n - 1), d, Seq::empty())->0;
        let x = sp(v)[n - 1];
        assert(op_out(x, d, o) is Some);
        assert(op_out(x, d, o)->0.len() == slen(x));
        lemma_take_total(sp(v), n - 1);
        match x { SOp::Run { byte, len } => { assert(op_out(x, d, o)->0 =~= rep(byte, len as int)); }, _ => { } }
    }
}
/// the operations do what those of the patch do
#[verifier::opaque]
pub open spec fn covers(ops: Seq<SOp>, w: Seq<InnerOp>) -> bool { forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(ops, d, t) ==> iyields(w, d, t) }
pub proof fn lemma_covers(v: Seq<SparseOp>, w: Seq<InnerOp>)
    requires inner_ops(v, w, v.len() as int), placed(v, 0)
    ensures covers(sp(v), w), full_ops(sp(v)) ==> full_copies(w) && short_runs(w, 0)
{
    reveal(covers);
    assert forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(sp(v), d, t) implies iyields(w, d, t) by {
        assert(sp(v).take(v.len() as int) =~= sp(v)); assert(w.take(w.len() as int) =~= w);
        lemma_inner_run(v, w, v.len() as int, d);
    }
    if full_ops(sp(v)) {
        assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]) matches InnerOp::Copy(c) ==> c.len >= 1) by { assert(inner_of(v[i], w[i])); assert(slen(sp(v)[i]) >= 1); }
        assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]) matches InnerOp::Run { byte, len, output_start_pos } ==> 1 <= len <= 255) by { assert(inner_of(v[i], w[i])); assert(slen(sp(v)[i]) >= 1); }
    }
}

pub open spec fn tidy<R: Read>(r: R) -> bool { forall|s: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(packed(), r, s, secs) ==> full_ops(flat_ops(secs)) }
pub open spec fn read_as<R: Read>(r: R, w: Seq<InnerOp>, s: Seq<u8>, secs: Seq<Sec>) -> bool { offers_patch(packed(), r, s, secs) && covers(flat_ops(secs), w) && (full_ops(flat_ops(secs)) ==> full_copies(w) && short_runs(w, 0)) }
pub open spec fn gives<R: Read>(r: R, v: Seq<SparseOp>) -> bool { exists|st: Stats| #[trigger] extracts(r, v, st) }
pub open spec fn read_from<R: Read>(r: R, v: Seq<SparseOp>, w: Seq<InnerOp>) -> bool { gives(r, v) && inner_ops(v, w, v.len() as int) }

pub open spec fn reads<R: Read>(r: R, w: Seq<InnerOp>) -> bool { exists|s: Seq<u8>, secs: Seq<Sec>| #[trigger] read_as(r, w, s, secs) }
/// a mutable reference to a stream offers what the stream offers
proof fn lemma_through<R: Read>()
    ensures
        forall|r: &mut R| small(*r) ==> #[trigger] small(r), forall|r: &mut R| #[trigger] <&mut R as ReadSpec>::rreliable(&r) == (*r).rreliable(),
        forall|r: &mut R, s: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(packed(), r, s, secs) == offers_patch(packed(), *r, s, secs),
{
    bx_mut_rdata::<R>(); bx_mut_rpos::<R>(); bx_mut_rreliable::<R>();
    assert forall|r: &mut R| small(*r) implies #[trigger] small(r) by {
        assert forall|s: Seq<u8>, secs: Seq<Sec>, fin: bool| #[trigger] offers_secs(r, s, secs, fin) implies total(flat_ops(secs)) <= i64::MAX by { assert(offers_secs(*r, s, secs, fin)); }
    }
}
//@item smdiff-merger/src/transcoder.rs fn read_ops_from_patch
fn read_ops_from_patch<R:Read+Seek>(input: &mut R) -> /*+*/ (r: /*-*/ std::io::Result<Vec<InnerOp>> /*+*/)
    requires small(*old(input))
    ensures
        r matches Ok(v) ==> reads(*old(input), v@),
        r.is_err() && (*old(input)).rreliable() ==> forall|s: Seq<u8>, secs: Seq<Sec>| !#[trigger] offers_patch(packed(), *old(input), s, secs), /*-*/ {
    /*+*/ let ghost p0 = *input; let ghost p1 = input; proof { lemma_through::<R>(); assert(small(p1)); assert forall|s: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(packed(), p0, s, secs) == offers_patch(packed(), p1, s, secs) by { } } /*-*/
    let inners:Vec<InnerOp> = {
        let mut vp_v = Vec::new();
        for (out_addr,op) in /*+*/ it: /*-*/ extract_patch_instructions(input)?.0
            /*+*/ invariant gives(p1, it.seq()), inner_ops(it.seq(), vp_v@, it.index@), it.index@ == it.seq().len() ==> read_from(p1, it.seq(), vp_v@), /*-*/
        {
            /*+*/ let ghost k = it.index@; let ghost so = sop(op); proof { assert(so == sop(it.seq()[k].1)); } /*-*/
            vp_v.push(match op {
                Op::Add(a) => InnerOp::Add(a.bytes.to_vec()),
                Op::Copy(c) => InnerOp::Copy(c),
                Op::Run(r) => InnerOp::Run{byte: r.byte, len: r.len as usize, output_start_pos: out_addr as usize},
            });
            /*+*/ proof { match (so, vp_v@[k]) { (SOp::Add { bytes }, InnerOp::Add(b)) => { assert(b@ =~= bytes); }, _ => { } } assert(inner_of(it.seq()[k], vp_v@[k])); } /*-*/
        }
        vp_v
    };
    /*+*/ proof {
        let v = choose|v: Seq<SparseOp>| #[trigger] read_from(p1, v, inners@);
        let st = choose|st: Stats| #[trigger] extracts(p1, v, st);
        let x = choose|s: Seq<u8>, secs: Seq<Sec>| #[trigger] extracted(p1, v, st, s, secs);
        lemma_covers(v, inners@);
        assert(read_as(p0, inners@, x.0, x.1));
    } /*-*/
    Ok(inners)
}
//@end

// ---------------------------------------------------------------- joining
//@item smdiff-merger/src/transcoder.rs fn join_adjacent_adds
fn join_adjacent_adds(ops: &mut Vec<InnerOp>)
    /*+*/ ensures final(ops)@.len() == old(ops)@.len(), isame(old(ops)@, final(ops)@), full_copies(old(ops)@) ==> full_copies(final(ops)@), short_runs(old(ops)@, 0) ==> short_runs(final(ops)@, 0) /*-*/
{
    /*+*/ let ghost v0 = ops@; proof { lemma_isame_refl(v0); ax_inner_len(*ops); } /*-*/
    let mut i = 0;
    while i + 1 < ops.len()
        /*+*/ invariant v0 == old(ops)@, ops@.len() == v0.len() <= isize::MAX, i <= ops@.len() + 1, isame(v0, ops@), full_copies(v0) ==> full_copies(ops@), short_runs(v0, 0) ==> short_runs(ops@, 0),
        decreases ops@.len() + 1 - i, /*-*/
    {
        /*+*/ let ghost v = ops@; let ghost i0 = i as int; /*-*/
        let (left, right) = ops.split_at_mut(i + 1);
        if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
            if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
                first.append(second);
            }
            i += 1;
        }
        i += 1;
        /*+*/ proof {
            let w = ops@;
            if w =~= v { } else {
                assert(put_together(v, w, i0));
                lemma_put_together(v, w, i0);
                lemma_isame_trans(v0, v, w);
            }
        } /*-*/
    }
}
//@end
//@item smdiff-merger/src/transcoder.rs fn join_adjacent_runs
fn join_adjacent_runs(ops: &mut Vec<InnerOp>)
    /*+*/ requires short_runs(old(ops)@, 0)
    ensures final(ops)@.len() == old(ops)@.len(), isame(old(ops)@, final(ops)@), full_copies(old(ops)@) ==> full_copies(final(ops)@) /*-*/
{
    /*+*/ let ghost v0 = ops@; proof { lemma_isame_refl(v0); ax_inner_len(*ops); } /*-*/
    let mut i = 0;
    while i + 1 < ops.len()
        /*+*/ invariant v0 == old(ops)@, ops@.len() == v0.len() <= isize::MAX, i <= ops@.len() + 1, isame(v0, ops@), full_copies(v0) ==> full_copies(ops@), short_runs(ops@, i as int),
        decreases ops@.len() + 1 - i, /*-*/
    {
        /*+*/ let ghost v = ops@; let ghost i0 = i as int; /*-*/
        let (left, right) = ops.split_at_mut(i + 1);
        if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
            /*+*/ proof { ax_mut_eq(); } assert(v[i0] matches InnerOp::Run { byte, len, output_start_pos } && byte == *byte1 && len == *len1); assert(v[i0 + 1] matches InnerOp::Run { byte, len, output_start_pos } && byte == *byte2 && len == *len2); /*-*/
            if byte1 == byte2 {
                *len1 += *len2;
                *len2 = 0;
            }
            i += 1;
        }
        i += 1;
        /*+*/ proof {
            let w = ops@;
            assert(forall|k: int| 0 <= k < v.len() && k != i0 && k != i0 + 1 ==> #[trigger] w[k] == v[k]);
            if w =~= v { } else {
                assert(!(w[i0] == v[i0] && w[i0 + 1] == v[i0 + 1]));
                assert(put_together(v, w, i0));
                lemma_put_together(v, w, i0);
                lemma_isame_trans(v0, v, w);
            }
        } /*-*/
    }
}
//@end

// ---------------------------------------------------------------- back to operations
pub open spec fn nothing() -> Seq<u8> { Seq::empty() }
pub proof fn lemma_yields_push(v0: Seq<Op>, v1: Seq<Op>)
    requires v1.len() == v0.len() + 1, v1.drop_last() == v0
    ensures
        sops(v1).len() == v1.len(), sops(v1).last() == sop(v1.last()),
        neat(sops(v0)) && op_ok(sop(v1.last())) && slen(sop(v1.last())) >= 1 ==> neat(sops(v1)),
        forall|d: Option<Seq<u8>>, o: Seq<u8>| yields(sops(v0), d, o) ==> run_ops(sops(v1), d, nothing()) == (match #[trigger] op_out(sop(v1.last()), d, o) { None => None, Some(b) => Some(o + b) }),
{
    assert(sops(v1).drop_last() =~= sops(v0));
    assert(sops(v1).last() == sop(v1.last()));
    if neat(sops(v0)) && op_ok(sop(v1.last())) && slen(sop(v1.last())) >= 1 {
        assert forall|i: int| 0 <= i < sops(v1).len() implies op_ok(#[trigger] sops(v1)[i]) && slen(sops(v1)[i]) >= 1 by { if i < v0.len() { assert(sops(v1)[i] == sops(v0)[i]); assert(op_ok(sops(v0)[i]) && slen(sops(v0)[i]) >= 1); } }
    }
}
//@item smdiff-merger/src/transcoder.rs fn make_add_ops
fn make_add_ops<'a>(bytes: Vec<u8>, output: &mut Vec<Op>)
    /*+*/ ensures
        neat(sops(old(output)@)) ==> neat(sops(final(output)@)),
        forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(old(output)@), d, o) ==> yields(sops(final(output)@), d, o + bytes@), /*-*/
{
    /*+*/ let ghost v0 = output@; let ghost b0 = bytes@; proof { assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) implies yields(sops(v0), d, o + b0.take(0)) by { assert(o + b0.take(0) =~= o); } assert(bytes.len() == b0.len()); } /*-*/
    let total_len = bytes.len();
    if total_len == 0{
        /*+*/ proof { assert(b0 =~= b0.take(0)); } /*-*/
        return;
    }else if total_len == 1{//emit a run of len 1
        output.push(Op::Run(smdiff_common::Run{len: 1, byte: bytes[0]}));
        /*+*/ proof {
            assert(output@.drop_last() =~= v0);
            lemma_yields_push(v0, output@);
            assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) implies yields(sops(output@), d, o + b0) by {
                assert(op_out(sop(output@.last()), d, o) == Some(rep(b0[0], 1)));
                assert(rep(b0[0], 1) =~= b0);
            }
        } /*-*/
        return;
    }else if total_len == MAX_INST_SIZE as usize{ //no op if this is already the max size
        output.push(Op::Add(Add{bytes}));
        /*+*/ proof {
            assert(output@.drop_last() =~= v0);
            lemma_yields_push(v0, output@);
            assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) implies yields(sops(output@), d, o + b0) by { assert(op_out(sop(output@.last()), d, o) == Some(b0)); }
        } /*-*/
        return;
    }//else we are 2..MAX_INST_SIZE || MAX_INST_SIZE+1..?
    let mut processed = 0;
    loop
        /*+*/ invariant
            processed <= total_len == b0.len(), bytes@ == b0, v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)), bytes.len() == b0.len(),
            forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) ==> yields(sops(output@), d, o + b0.take(processed as int)),
        ensures processed == total_len,
        decreases total_len - processed, /*-*/
    {
        if processed == total_len{
            break;
        }
        let to_add = total_len - processed;
        let chunk_size = to_add.min(MAX_INST_SIZE as usize);
        /*+*/ let ghost p0 = processed as int; let ghost v1 = output@; /*-*/
        let op = Add{bytes: bytes[processed..processed+chunk_size].to_vec()};
        /*+*/ let ghost c = b0.subrange(p0, p0 + chunk_size); proof { assert(op.bytes@ =~= c); } /*-*/
        processed += chunk_size;
        output.push(Op::Add(op));
        /*+*/ proof {
            assert(output@.drop_last() =~= v1);
            lemma_yields_push(v1, output@);
            assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) implies yields(sops(output@), d, o + b0.take(processed as int)) by {
                let q = o + b0.take(p0);
                assert(yields(sops(v1), d, q));
                assert(op_out(sop(output@.last()), d, q) == Some(c));
                assert(q + c =~= o + b0.take(processed as int));
            }
        } /*-*/
    }
    /*+*/ proof { assert(b0.take(total_len as int) =~= b0); } /*-*/
}
//@end

//@item smdiff-merger/src/transcoder.rs const RUN_LIMIT
const RUN_LIMIT: usize = (MAX_RUN_LEN as usize) * 6;
//@end
//@item smdiff-merger/src/transcoder.rs const COPY_LIMIT
const COPY_LIMIT: usize = RUN_LIMIT/2;
//@end
//@item smdiff-merger/src/transcoder.rs fn make_run_ops
fn make_run_ops(byte:u8, len:usize, run_start_pos:usize, output: &mut Vec<Op>)
    /*+*/ ensures
        neat(sops(old(output)@)) ==> neat(sops(final(output)@)),
        forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(old(output)@), d, o) && o.len() == run_start_pos ==> yields(sops(final(output)@), d, o + rep(byte, len as int)), /*-*/
{
    /*+*/ let ghost v0 = output@; proof { assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) implies yields(sops(output@), d, o + rep(byte, 0)) by { assert(o + rep(byte, 0) =~= o); } } /*-*/
    if len < RUN_LIMIT {
        let mut processed = 0;
        while processed < len
            /*+*/ invariant
                processed <= len, v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)),
                forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) ==> yields(sops(output@), d, o + rep(byte, processed as int)),
            decreases len - processed, /*-*/
        {
            let remaining = len - processed;
            let chunk_size = (MAX_RUN_LEN as usize).min(remaining);
            /*+*/ let ghost v1 = output@; /*-*/
            let op = Op::Run(smdiff_common::Run{byte, len: chunk_size as u8});
            output.push(op);
            /*+*/ proof { lemma_run_push(v0, v1, output@, byte, processed as int, chunk_size as int); } /*-*/
            processed += chunk_size;
        };
    }else{
        //we can use one or more copies on 3 runs.
        //we need to emit the three runs, then make the copies from the stack
        for _vp_i in /*+*/ it: /*-*/ 0..3
            /*+*/ invariant
                v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)),
                forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) ==> yields(sops(output@), d, o + rep(byte, 62 * it.index@)), /*-*/
        {
            /*+*/ let ghost v1 = output@; /*-*/
            output.push(Op::Run(smdiff_common::Run{byte, len: MAX_RUN_LEN}));
            /*+*/ proof { lemma_run_push(v0, v1, output@, byte, 62 * it.index@, 62); } /*-*/
        }

        let copy_bytes = len - COPY_LIMIT;
        let mut processed = 0;
        let mut max_copy_size = COPY_LIMIT;
        while processed < copy_bytes
            /*+*/ invariant
                processed <= copy_bytes == len - COPY_LIMIT, max_copy_size == COPY_LIMIT + processed, v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)),
                forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) && o.len() == run_start_pos ==> yields(sops(output@), d, o + rep(byte, COPY_LIMIT + processed)),
            decreases copy_bytes - processed, /*-*/
        {
            let copy_size = max_copy_size.min(copy_bytes - processed).min(MAX_INST_SIZE);
            /*+*/ let ghost v1 = output@; /*-*/
            let op = Op::Copy(smdiff_common::Copy{src: CopySrc::Output, addr: run_start_pos as u64, len: copy_size as u16});
            output.push(op);
            /*+*/ proof {
                assert(output@.drop_last() =~= v1);
                lemma_yields_push(v1, output@);
                assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) && o.len() == run_start_pos implies yields(sops(output@), d, o + rep(byte, COPY_LIMIT + processed + copy_size)) by {
                    let q = o + rep(byte, COPY_LIMIT + processed);
                    assert(yields(sops(v1), d, q));
                    assert(q.subrange(run_start_pos as int, run_start_pos + copy_size) =~= rep(byte, copy_size as int));
                    assert(op_out(sop(output@.last()), d, q) == Some(rep(byte, copy_size as int)));
                    assert(q + rep(byte, copy_size as int) =~= o + rep(byte, COPY_LIMIT + processed + copy_size));
                }
            } /*-*/
            processed += copy_size;
            max_copy_size += copy_size;
        }
    }
}
//@end
proof fn lemma_run_push(v0: Seq<Op>, v1: Seq<Op>, v2: Seq<Op>, byte: u8, k: int, n: int)
    requires v2.len() == v1.len() + 1, v2.drop_last() =~= v1, v2.last() == Op::Run(smdiff_common::Run { byte, len: n as u8 }), 1 <= n <= 62, k >= 0,
        neat(sops(v0)) ==> neat(sops(v1)),
        forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) ==> yields(sops(v1), d, o + rep(byte, k)),
    ensures neat(sops(v0)) ==> neat(sops(v2)),
        forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) ==> yields(sops(v2), d, o + rep(byte, k + n)),
{
    lemma_yields_push(v1, v2);
    assert forall|d: Option<Seq<u8>>, o: Seq<u8>| #[trigger] yields(sops(v0), d, o) implies yields(sops(v2), d, o + rep(byte, k + n)) by {
        let q = o + rep(byte, k);
        assert(yields(sops(v1), d, q));
        assert(op_out(sop(v2.last()), d, q)->0 =~= rep(byte, n));
        assert(q + rep(byte, n) =~= o + rep(byte, k + n));
    }
}
/// the operations do what the inner ones do
#[verifier::opaque]
pub open spec fn does(v: Seq<InnerOp>, ops: Seq<SOp>) -> bool { forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] iyields(v, d, t) ==> yields(ops, d, t) }
/// one more inner operation
pub open spec fn one_more(o: InnerOp, a: Seq<SOp>, b: Seq<SOp>) -> bool { forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(a, d, t) && iout(o, d, t) is Some ==> yields(b, d, t + iout(o, d, t)->0) }
proof fn lemma_one_more(v: Seq<InnerOp>, k: int, a: Seq<SOp>, b: Seq<SOp>)
    requires 0 <= k < v.len(), does(v.take(k), a), one_more(v[k], a, b)
    ensures does(v.take(k + 1), b)
{
    reveal(does);
    assert forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] iyields(v.take(k + 1), d, t) implies yields(b, d, t) by {
        lemma_irun_push(v, k, d);
        let o = irun(v.take(k), d)->0;
        assert(iyields(v.take(k), d, o));
        assert(yields(a, d, o));
    }
}
proof fn lemma_does_nothing() ensures does(Seq::empty(), Seq::empty()) { reveal(does); }
proof fn lemma_one_copy(c: smdiff_common::Copy, v0: Seq<Op>, v1: Seq<Op>)
    requires v1.len() == v0.len() + 1, v1.drop_last() == v0, v1.last() == Op::Copy(c)
    ensures one_more(InnerOp::Copy(c), sops(v0), sops(v1)), neat(sops(v0)) && c.len >= 1 ==> neat(sops(v1))
{ lemma_yields_push(v0, v1); }
/// whatever the patch produces the operations produce too
pub open spec fn does_all(v: Seq<InnerOp>, ops: Seq<SOp>) -> bool { does(v, ops) }
proof fn lemma_does(v: Seq<InnerOp>, w: Seq<InnerOp>, ops: Seq<SOp>)
    requires isame(v, w), does(w, ops)
    ensures does(v, ops)
{ reveal(isame); reveal(does); }

//@item smdiff-merger/src/transcoder.rs fn optimize_and_convert_ops
fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)-> /*+*/ (r: /*-*/ Vec<Op> /*+*/)
    requires short_runs(ops@, 0)
    ensures does(ops@, sops(r@)), full_copies(ops@) ==> neat(sops(r@)) /*-*/ {
    /*+*/ let ghost v0 = ops@; /*-*/
    join_adjacent_adds(&mut ops);
    /*+*/ let ghost v1 = ops@; /*-*/
    join_adjacent_runs(&mut ops);
    /*+*/ let ghost v = ops@; proof { lemma_isame_trans(v0, v1, v); lemma_does_nothing(); assert(v.take(0) =~= Seq::empty()); } /*-*/
    let mut out_ops = Vec::with_capacity(ops.len());
    /*+*/ proof { assert(sops(out_ops@) =~= Seq::empty()); } /*-*/
    for iop in /*+*/ it: /*-*/ ops
        /*+*/ invariant it.seq() == v, does(v.take(it.index@), sops(out_ops@)), full_copies(v) ==> neat(sops(out_ops@)), /*-*/
    {
        /*+*/ let ghost a = out_ops@; let ghost io = iop; let ghost k = it.index@; /*-*/
        match iop {
            InnerOp::Add(bytes) if !bytes.is_empty() => make_add_ops(bytes, &mut out_ops),
            InnerOp::Copy(copy) => out_ops.push(Op::Copy(copy)),
            InnerOp::Run{byte, len,output_start_pos} if len>0 => make_run_ops(byte, len, output_start_pos,&mut out_ops),
            _ => (),
        }
        /*+*/ proof {
            match io {
                InnerOp::Copy(c) => { assert(out_ops@.drop_last() =~= a); lemma_one_copy(c, a, out_ops@); },
                InnerOp::Add(b) => { if b@.len() == 0 { assert forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(sops(a), d, t) implies yields(sops(out_ops@), d, t + b@) by { assert(t + b@ =~= t); } } },
                InnerOp::Run { byte, len, output_start_pos } => { if len == 0 { assert forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(sops(a), d, t) implies yields(sops(out_ops@), d, t + rep(byte, 0)) by { assert(t + rep(byte, 0) =~= t); } } },
            }
            assert(io == v[k]);
            assert(one_more(io, sops(a), sops(out_ops@)));
            lemma_one_more(v, k, sops(a), sops(out_ops@));
        } /*-*/
    }
    /*+*/ proof { assert(v.take(v.len() as int) =~= v); lemma_does(v0, v, sops(out_ops@)); } /*-*/
    out_ops
}
//@end

/// what was written is a patch that does what the one that is offered does, laid out as asked
pub open spec fn transcoded<R: Read, W: Write>(r: R, w0: W, w1: W, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>) -> bool {
    offers_patch(packed(), r, s, secs) && appended(w0, w1, ops, c, z, zs) && neat(ops) && outdoes(flat_ops(secs), ops)
}
/// b does what a does
pub open spec fn outdoes(a: Seq<SOp>, b: Seq<SOp>) -> bool { forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(a, d, t) ==> yields(b, d, t) }
pub open spec fn is_transcoded<R: Read, W: Write>(r: R, w0: W, w1: W, c: EncoderConfig) -> bool {
    exists|s: Seq<u8>, secs: Seq<Sec>, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>| #[trigger] transcoded(r, w0, w1, c, s, secs, ops, z, zs)
}
proof fn lemma_outdoes(a: Seq<SOp>, v: Seq<InnerOp>, b: Seq<SOp>)
    requires covers(a, v), does(v, b)
    ensures outdoes(a, b)
{ reveal(covers); reveal(does); }

proof fn lemma_reads<R: Read>(r: R, w: Seq<InnerOp>)
    requires tidy(r), reads(r, w)
    ensures short_runs(w, 0), full_copies(w)
{ let x = choose|s: Seq<u8>, secs: Seq<Sec>| #[trigger] read_as(r, w, s, secs); assert(offers_patch(packed(), r, x.0, x.1)); }
//@item smdiff-merger/src/transcoder.rs fn transcode
fn transcode<R,W>(
    input: &mut R,
    output: &mut W,
    format: smdiff_common::Format,
    sec_comp: Option</*~ext| smdiff_encoder::SecondaryCompression |~*/ SecondaryCompression /*~*/>,
    output_segment_size: usize,
) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/) /*-*/
where
    R: Read+Seek,
    W: Write,
    /*+*/ requires small(*old(input)), tidy(*old(input)), comp_ok(sec_comp)
    ensures
        (*final(output)).wreliable() == (*old(output)).wreliable(),
        r.is_ok() ==> is_transcoded(*old(input), *old(output), *final(output), layout(output_segment_size, format, sec_comp)),
        r.is_err() && (*old(input)).rreliable() && (*old(output)).wreliable() ==> forall|s: Seq<u8>, secs: Seq<Sec>| !#[trigger] offers_patch(packed(), *old(input), s, secs), /*-*/
{
    /*+*/ hide(is_secs); hide(neat); hide(sec_written); hide(describes); hide(total); hide(adds); hide(sections_ok); hide(joined); hide(laid_out); hide(full_ops); hide(tidy); hide(small); hide(offers_patch); hide(outdoes);
    let ghost p0 = *input; let ghost w0 = *output; let ghost c = layout(output_segment_size, format, sec_comp); let ghost lim = section_limit(c.output_segment_size);
    proof { assert forall|w: Seq<InnerOp>| #[trigger] reads(p0, w) implies short_runs(w, 0) && full_copies(w) by { lemma_reads(p0, w); } } /*-*/
    let ops = optimize_and_convert_ops(read_ops_from_patch(input)?);
    /*+*/ let ghost mut z: Seq<u8> = Seq::empty(); let ghost mut secs: Seq<Sec> = Seq::empty(); let ghost mut pos: int = 0; let ghost so = sops(ops@);
    let ghost w = choose|w: Seq<InnerOp>| #[trigger] reads(p0, w) && does(w, so) && neat(so);
    let ghost x = choose|s: Seq<u8>, ss: Seq<Sec>| #[trigger] read_as(p0, w, s, ss);
    proof { lemma_outdoes(flat_ops(x.1), w, so); lemma_so_far_start::<Add>(c); assert(can_write(so)) by { reveal(neat); } assert(w0.written() + z =~= w0.written()); } /*-*/
    let mut win_data = Vec::new();
    for (seg_ops, mut header) in /*+*/ it: /*-*/ /*~ext| crate::make_sections |~*/ make_sections /*~*/(&ops, output_segment_size)
        /*+*/ invariant
            joined(it.seq()) == ops@, sections_ok(it.seq(), lim, true), it.seq().len() > 0, lim == section_limit(c.output_segment_size), format == c.format, sec_comp == c.sec_comp, comp_ok(sec_comp),
            so == sops(ops@), neat(so), it.index@ == 0 ==> z.len() == 0 && secs.len() == 0 && pos == 0,
            so_far(it.seq(), it.index@, z, secs, c, pos),
            (*output).written() == w0.written() + z, (*output).wreliable() == w0.wreliable(), w0 == *old(output),
            sec_comp is Some ==> win_data@.len() == 0,
            it.index@ == it.seq().len() ==> holds(z, secs, so, c), /*-*/
    {
        header.format = format;
        /*+*/ let ghost k = it.index@; let ghost w1 = *output; let ghost h = header; proof { assert(seg_ops@ == it.seq()[k].0@); lemma_planned(it.seq(), k, ops@, lim, format, header); assert(describes(header, seg_ops@)); } /*-*/
        /*~ext| smdiff_encoder::writer::section_writer |~*/ section_writer /*~*/(
            &sec_comp,
            header,
            output,
            &seg_ops,
            &mut win_data,
        )?;
        /*+*/ proof {
            let s = choose|s: Seq<u8>| #[trigger] sec_written(s, header, sec_comp, seg_ops@) && (*output).written() == w1.written() + s;
            lemma_so_far_step(it.seq(), k, z, secs, c, pos, s, header);
            pos = pos + header.output_size;
            secs = secs.push(Sec { h: written_head(header, c.sec_comp, seg_ops@), ops: sops(seg_ops@) });
            z = z + s;
            assert((*output).written() =~= w0.written() + z);
            lemma_so_far_whole(it.seq(), k + 1, z, secs, c, pos);
        } /*-*/
    }
    /*+*/ proof {
        assert(appended(w0, *output, so, c, z, secs));
        assert(transcoded(p0, w0, *output, c, x.0, x.1, so, z, secs));
    } /*-*/

    Ok(())
}
//@end

/// C11.  The contract of transcode (transcoded): what it wrote is at the start of what is read.  Where the original patch produces t,
/// apply_patch on the new one produces t as well where it succeeds (its contract: patched) ...
pub proof fn c11_applied<R: Read, W: Write, P: Read, V: Write>(r: R, w0: W, w1: W, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>, d: Option<Seq<u8>>, t: Seq<u8>, p0: P, v1: V, s2: Seq<u8>, secs2: Seq<Sec>, o: Seq<u8>)
    requires transcoded(r, w0, w1, c, s, secs, ops, z, zs), yields(flat_ops(secs), d, t), offers(p0, z), crate::smdiff_decoder::patched(p0, v1, d, s2, secs2, o)
    ensures o == t
{ crate::smdiff_decoder::theorem_one_result(p0, v1, d, s2, secs2, o, z, zs); }
/// ... and it does not fail
pub proof fn c11_accepted<R: Read, W: Write, P: Read>(r: R, w0: W, w1: W, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>, d: Option<Seq<u8>>, t: Seq<u8>, p0: P)
    requires transcoded(r, w0, w1, c, s, secs, ops, z, zs), yields(flat_ops(secs), d, t), offers(p0, z)
    ensures offers_patch(packed(), p0, z, zs), !crate::patch::cannot(flat_ops(zs), d, Seq::empty())
{ crate::th_c01::lemma_not_refused(ops, d, t); }
/// C08.  What the transcoder writes respects the limits of the format.
pub proof fn c08_transcoder<R: Read, W: Write>(r: R, w0: W, w1: W, c: EncoderConfig, s: Seq<u8>, secs: Seq<Sec>, ops: Seq<SOp>, z: Seq<u8>, zs: Seq<Sec>, k: int)
    requires transcoded(r, w0, w1, c, s, secs, ops, z, zs), 0 <= k < ops.len()
    ensures
        slen(ops[k]) >= 1, ops[k] is Run ==> slen(ops[k]) <= 62, slen(ops[k]) <= 65535,
        forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(flat_ops(secs), d, t) ==> (ops[k] matches SOp::Copy { dict, addr, len } ==> addr + len <= (if dict { real_src(d).len() } else { total(ops.take(k)) })),
        forall|i: int| 0 <= i < zs.len() ==> crate::th_c01::sec_limits(#[trigger] zs[i], c, i == zs.len() - 1),
{
    assert(op_ok(ops[k]) && slen(ops[k]) >= 1);
    crate::th_c01::c08_sections(z, zs, c);
    assert forall|d: Option<Seq<u8>>, t: Seq<u8>| #[trigger] yields(flat_ops(secs), d, t) implies (ops[k] matches SOp::Copy { dict, addr, len } ==> addr + len <= (if dict { real_src(d).len() } else { total(ops.take(k)) })) by {
        assert(yields(ops, d, t)); crate::th_c01::lemma_at_op(ops, k, d, t);
    }
}

}
}
