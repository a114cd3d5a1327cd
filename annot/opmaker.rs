// From matches to operations (C01, C02, C08).
pub mod op_maker {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::{Copy, CopySrc, MAX_INST_SIZE, MAX_RUN_LEN};
use crate::smdiff_common::*;
use crate::format::*;
use crate::patch::*;
pub use crate::op_lemmas::{full_ops, neat};
use crate::inner::*;
use crate::inner::Op;
verus! {

pub open spec fn nothing() -> Seq<u8> { Seq::empty() }
/// applied one after another the operations produce `o` (source `d`), and the format can represent each of them
pub open spec fn makes(ops: Seq<SOp>, d: Seq<u8>, o: Seq<u8>) -> bool { run_ops(ops, Some(d), nothing()) == Some(o) }
pub open spec fn rep(b: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| b) }
pub proof fn lemma_makes_push<'a>(v0: Seq<Op<'a>>, v1: Seq<Op<'a>>)
    requires v1.len() == v0.len() + 1, v1.drop_last() == v0
    ensures
        sops(v1).len() == v1.len(), sops(v1).last() == sop(v1.last()),
        neat(sops(v0)) && op_ok(sop(v1.last())) && slen(sop(v1.last())) >= 1 ==> neat(sops(v1)),
        forall|d: Seq<u8>, o: Seq<u8>| makes(sops(v0), d, o) ==> run_ops(sops(v1), Some(d), nothing()) == (match #[trigger] op_out(sop(v1.last()), Some(d), o) { None => None, Some(b) => Some(o + b) }),
{
    assert(sops(v1).drop_last() =~= sops(v0));
    assert(sops(v1).last() == sop(v1.last()));
    if neat(sops(v0)) && op_ok(sop(v1.last())) && slen(sop(v1.last())) >= 1 {
        assert forall|i: int| 0 <= i < sops(v1).len() implies op_ok(#[trigger] sops(v1)[i]) && slen(sops(v1)[i]) >= 1 by { if i < v0.len() { assert(sops(v1)[i] == sops(v0)[i]); assert(op_ok(sops(v0)[i]) && slen(sops(v0)[i]) >= 1); } }
    }
}

//@item smdiff-encoder/src/op_maker.rs fn make_add_ops
fn make_add_ops<'a>(bytes: &'a [u8],output: &mut Vec<Op<'a>>)
    /*+*/ ensures
        neat(sops(old(output)@)) ==> neat(sops(final(output)@)),
        forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(old(output)@), d, o) ==> makes(sops(final(output)@), d, o + bytes@), /*-*/
{
    let total_len = bytes.len();
    /*+*/ let ghost v0 = output@; /*-*/
    if total_len == 1{
        output.push(Op::Run(smdiff_common::Run{len: 1, byte: bytes[0]}));
        /*+*/ proof {
            assert(output@.drop_last() =~= v0);
            lemma_makes_push(v0, output@);
            assert forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) implies makes(sops(output@), d, o + bytes@) by {
                assert(op_out(sop(output@.last()), Some(d), o) == Some(rep(bytes@[0], 1)));
                assert(rep(bytes@[0], 1) =~= bytes@);
            }
        } /*-*/
        return;
    }
    let mut processed = 0;
    /*+*/ proof { assert forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) implies makes(sops(output@), d, o + bytes@.take(0)) by { assert(o + bytes@.take(0) =~= o); } } /*-*/
    loop
        /*+*/ invariant
            processed <= total_len == bytes@.len(), v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)),
            forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) ==> makes(sops(output@), d, o + bytes@.take(processed as int)),
        ensures processed == total_len,
        decreases total_len - processed, /*-*/
    {
        if processed == total_len{
            break;
        }
        let to_add = total_len - processed;
        let chunk_size = to_add.min(MAX_INST_SIZE as usize);
        /*+*/ let ghost p0 = processed as int; let ghost v1 = output@; /*-*/
        let op = crate::Add{bytes: &bytes[processed..processed+chunk_size]};
        processed += chunk_size;
        output.push(Op::Add(op));
        /*+*/ proof {
            assert(output@.drop_last() =~= v1);
            lemma_makes_push(v1, output@);
            let c = bytes@.subrange(p0, processed as int);
            assert forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) implies makes(sops(output@), d, o + bytes@.take(processed as int)) by {
                let q = o + bytes@.take(p0);
                assert(makes(sops(v1), d, q));
                assert(op_out(sop(output@.last()), Some(d), q) == Some(c));
                assert(q + c =~= o + bytes@.take(processed as int));
            }
        } /*-*/
    }
    /*+*/ proof { assert(bytes@.take(total_len as int) =~= bytes@); } /*-*/
}
//@end

//@item smdiff-encoder/src/op_maker.rs fn make_copy_ops
fn make_copy_ops(src: CopySrc, start:usize, len:usize, output: &mut Vec<Op>)
    /*+*/ requires start + len <= usize::MAX
    ensures
        neat(sops(old(output)@)) ==> neat(sops(final(output)@)),
        forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(old(output)@), d, o) && start + len <= (if src is Dict { d } else { o }).len() ==>
            makes(sops(final(output)@), d, o + (if src is Dict { d } else { o }).subrange(start as int, start + len)), /*-*/
{
    let mut processed = 0;
    let mut addr = start as u64;
    /*+*/ let ghost v0 = output@;
    proof { assert forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) && start + len <= (if src is Dict { d } else { o }).len() implies makes(sops(output@), d, o + (if src is Dict { d } else { o }).subrange(start as int, start as int)) by {
        assert(o + (if src is Dict { d } else { o }).subrange(start as int, start as int) =~= o); } } /*-*/
    while processed < len
        /*+*/ invariant
            processed <= len, addr == start + processed, start + len <= usize::MAX, v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)),
            forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) && start + len <= (if src is Dict { d } else { o }).len() ==>
                makes(sops(output@), d, o + (if src is Dict { d } else { o }).subrange(start as int, start + processed)),
        decreases len - processed, /*-*/
    {
        let remaining = len - processed;
        let chunk_size = MAX_INST_SIZE.min(remaining);
        /*+*/ let ghost p0 = processed as int; let ghost v1 = output@; /*-*/
        let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });
        output.push(op);
        /*+*/ proof {
            assert(output@.drop_last() =~= v1);
            lemma_makes_push(v1, output@);
            assert forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) && start + len <= (if src is Dict { d } else { o }).len() implies
                makes(sops(output@), d, o + (if src is Dict { d } else { o }).subrange(start as int, start + p0 + chunk_size)) by {
                let x = if src is Dict { d } else { o };
                let q = o + x.subrange(start as int, start + p0);
                let c = x.subrange(start + p0, start + p0 + chunk_size);
                assert(makes(sops(v1), d, q));
                assert((if src is Dict { d } else { q }).subrange(start + p0, start + p0 + chunk_size) =~= c);
                assert(op_out(sop(output@.last()), Some(d), q) == Some(c));
                assert(q + c =~= o + x.subrange(start as int, start + p0 + chunk_size));
            }
        } /*-*/
        addr += chunk_size as u64;
        processed += chunk_size;
    };
}
//@end

//@item smdiff-encoder/src/op_maker.rs const RUN_LIMIT
const RUN_LIMIT: usize = (MAX_RUN_LEN as usize) * 6;
//@end
//@item smdiff-encoder/src/op_maker.rs const COPY_LIMIT
const COPY_LIMIT: usize = RUN_LIMIT/2;
//@end

//@item smdiff-encoder/src/op_maker.rs fn make_run_ops
fn make_run_ops(byte:u8, len:usize, run_start_pos:usize, output: &mut Vec<Op>)
    /*+*/ ensures
        neat(sops(old(output)@)) ==> neat(sops(final(output)@)),
        forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(old(output)@), d, o) && o.len() == run_start_pos ==> makes(sops(final(output)@), d, o + rep(byte, len as int)), /*-*/
{
    /*+*/ let ghost v0 = output@; proof { assert forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) implies makes(sops(output@), d, o + rep(byte, 0)) by { assert(o + rep(byte, 0) =~= o); } } /*-*/
    if len < RUN_LIMIT {
        let mut processed = 0;
        while processed < len
            /*+*/ invariant
                processed <= len, v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)),
                forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) ==> makes(sops(output@), d, o + rep(byte, processed as int)),
            decreases len - processed, /*-*/
        {
            let remaining = len - processed;
            let chunk_size = (MAX_RUN_LEN as usize).min(remaining);
            /*+*/ let ghost v1 = output@; /*-*/
            let op = Op::Run(smdiff_common::Run{byte, len: chunk_size as u8});
            output.push(op);
            /*+*/ proof { lemma_run_push(v0, v1, output@, byte, processed as int, chunk_size as int); } /*-*/
            processed += chunk_size;
        };
    }else{
        for _vp_i in /*+*/ it: /*-*/ 0..3
            /*+*/ invariant
                v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)),
                forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) ==> makes(sops(output@), d, o + rep(byte, 62 * it.index@)), /*-*/
        {
            /*+*/ let ghost v1 = output@; /*-*/
            output.push(Op::Run(smdiff_common::Run{byte, len: MAX_RUN_LEN}));
            /*+*/ proof { lemma_run_push(v0, v1, output@, byte, 62 * it.index@, 62); } /*-*/
        }

        let copy_bytes = len - COPY_LIMIT;
        let mut processed = 0;
        let mut max_copy_size = COPY_LIMIT;
        while processed < copy_bytes
            /*+*/ invariant
                processed <= copy_bytes == len - COPY_LIMIT, max_copy_size == COPY_LIMIT + processed, v0 == old(output)@, neat(sops(v0)) ==> neat(sops(output@)),
                forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) && o.len() == run_start_pos ==> makes(sops(output@), d, o + rep(byte, COPY_LIMIT + processed)),
            decreases copy_bytes - processed, /*-*/
        {
            let copy_size = max_copy_size.min(copy_bytes - processed).min(MAX_INST_SIZE);
            /*+*/ let ghost v1 = output@; /*-*/
            let op = Op::Copy(Copy{src: CopySrc::Output, addr: run_start_pos as u64, len: copy_size as u16});
            output.push(op);
            /*+*/ proof {
                assert(output@.drop_last() =~= v1);
                lemma_makes_push(v1, output@);
                assert forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) && o.len() == run_start_pos implies makes(sops(output@), d, o + rep(byte, COPY_LIMIT + processed + copy_size)) by {
                    let q = o + rep(byte, COPY_LIMIT + processed);
                    assert(makes(sops(v1), d, q));
                    assert(q.subrange(run_start_pos as int, run_start_pos + copy_size) =~= rep(byte, copy_size as int));
                    assert(op_out(sop(output@.last()), Some(d), q) == Some(rep(byte, copy_size as int)));
                    assert(q + rep(byte, copy_size as int) =~= o + rep(byte, COPY_LIMIT + processed + copy_size));
                }
            } /*-*/
            processed += copy_size;
            max_copy_size += copy_size;
        }
    }
}
//@end
proof fn lemma_run_push<'a>(v0: Seq<Op<'a>>, v1: Seq<Op<'a>>, v2: Seq<Op<'a>>, byte: u8, k: int, n: int)
    requires v2.len() == v1.len() + 1, v2.drop_last() =~= v1, v2.last() == Op::<'a>::Run(smdiff_common::Run { byte, len: n as u8 }), 1 <= n <= 62, k >= 0,
        neat(sops(v0)) ==> neat(sops(v1)),
        forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) ==> makes(sops(v1), d, o + rep(byte, k)),
    ensures neat(sops(v0)) ==> neat(sops(v2)),
        forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) ==> makes(sops(v2), d, o + rep(byte, k + n)),
{
    lemma_makes_push(v1, v2);
    assert forall|d: Seq<u8>, o: Seq<u8>| #[trigger] makes(sops(v0), d, o) implies makes(sops(v2), d, o + rep(byte, k + n)) by {
        let q = o + rep(byte, k);
        assert(makes(sops(v1), d, q));
        assert(op_out(sop(v2.last()), Some(d), q)->0 =~= rep(byte, n));
        assert(q + rep(byte, n) =~= o + rep(byte, k + n));
    }
}

/// the operations up to index `one` do not overlap, those between `one` and `two` are removed, the others are as they were
#[verifier::opaque]
pub open spec fn pass_one(cur: Seq<InnerOp>, orig: Seq<InnerOp>, one: int, two: int) -> bool {
    &&& cur.len() == orig.len() && 0 <= one < two <= cur.len()
    &&& forall|i: int| two <= i < cur.len() ==> #[trigger] cur[i] == orig[i]
    &&& forall|i: int| one < i < two ==> ilen(#[trigger] cur[i]) == 0
    &&& forall|i: int, j: int| 0 <= i < j <= one && ilen(cur[i]) > 0 && (ilen(cur[j]) > 0 || j == one) ==> iend(#[trigger] cur[i]) <= ipos(#[trigger] cur[j])
    &&& forall|j: int| two <= j < cur.len() ==> ipos(cur[one]) <= ipos(#[trigger] cur[j]) && iend(cur[one]) <= iend(cur[j])
}
pub open spec fn apart(ops: Seq<InnerOp>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ops.len() && ilen(ops[i]) > 0 && ilen(ops[j]) > 0 ==> iend(#[trigger] ops[i]) <= ipos(#[trigger] ops[j])
}
pub open spec fn all_ok(ops: Seq<InnerOp>, src: Seq<u8>, trgt: Seq<u8>) -> bool { forall|i: int| 0 <= i < ops.len() ==> iop_ok(#[trigger] ops[i], src, trgt) }

pub proof fn lemma_apart(cur: Seq<InnerOp>, orig: Seq<InnerOp>, one: int)
    requires cur.len() == 0 || pass_one(cur, orig, one, cur.len() as int)
    ensures apart(cur)
{
    reveal(pass_one);
    assert forall|i: int, j: int| 0 <= i < j < cur.len() && ilen(cur[i]) > 0 && ilen(cur[j]) > 0 implies iend(#[trigger] cur[i]) <= ipos(#[trigger] cur[j]) by { if j > one { assert(ilen(cur[j]) == 0); } }
}
/// the operations produce the target with any source with which the original ones did
#[verifier::opaque]
pub open spec fn good(ops: Seq<InnerOp>, orig: Seq<InnerOp>, trgt: Seq<u8>) -> bool { forall|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(orig, src, trgt) ==> all_ok(ops, src, trgt) }
pub proof fn lemma_good(ops: Seq<InnerOp>, orig: Seq<InnerOp>, src: Seq<u8>, trgt: Seq<u8>)
    requires good(ops, orig, trgt), src.len() <= usize::MAX, inner_ok(orig, src, trgt)
    ensures all_ok(ops, src, trgt)
{ reveal(good); }
pub proof fn lemma_good_cut(ops: Seq<InnerOp>, orig: Seq<InnerOp>, trgt: Seq<u8>, k: int, n: int)
    requires good(ops, orig, trgt), 0 <= k < ops.len(), 0 <= n <= ilen(ops[k])
    ensures good(ops.update(k, icut(ops[k], n)), orig, trgt)
{
    reveal(good);
    assert forall|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(orig, src, trgt) implies all_ok(ops.update(k, icut(ops[k], n)), src, trgt) by {
        assert(all_ok(ops, src, trgt)); lemma_cut(ops[k], n, src, trgt); }
}
pub proof fn lemma_good_drop(ops: Seq<InnerOp>, orig: Seq<InnerOp>, trgt: Seq<u8>, k: int, n: int)
    requires good(ops, orig, trgt), 0 <= k < ops.len(), 0 <= n <= ilen(ops[k]), trgt.len() <= usize::MAX
    ensures good(ops.update(k, idrop(ops[k], n)), orig, trgt)
{
    reveal(good);
    assert forall|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(orig, src, trgt) implies all_ok(ops.update(k, idrop(ops[k], n)), src, trgt) by {
        assert(all_ok(ops, src, trgt)); lemma_drop(ops[k], n, src, trgt); }
}
pub proof fn lemma_head(cur: Seq<InnerOp>, orig: Seq<InnerOp>, one: int, two: int)
    requires pass_one(cur, orig, one, two), two < cur.len(), in_order(orig)
    ensures 0 <= one < two, ipos(cur[one]) <= ipos(cur[two]), iend(cur[one]) <= iend(cur[two]), cur[two] == orig[two],
        forall|j: int| two < j < cur.len() ==> ipos(cur[two]) <= ipos(#[trigger] cur[j]) && iend(cur[two]) <= iend(cur[j]),
{ reveal(pass_one); assert forall|j: int| two < j < cur.len() implies ipos(cur[two]) <= ipos(#[trigger] cur[j]) && iend(cur[two]) <= iend(cur[j]) by { assert(cur[j] == orig[j]); } }
pub proof fn lemma_keep(cur: Seq<InnerOp>, orig: Seq<InnerOp>, one: int, two: int)
    requires pass_one(cur, orig, one, two), two < cur.len(), in_order(orig), iend(cur[one]) <= ipos(cur[two])
    ensures pass_one(cur, orig, two, two + 1)
{
    lemma_head(cur, orig, one, two);
    reveal(pass_one);
    assert forall|i: int, j: int| 0 <= i < j <= two && ilen(cur[i]) > 0 && (ilen(cur[j]) > 0 || j == two) implies iend(#[trigger] cur[i]) <= ipos(#[trigger] cur[j]) by {
        if j > one { assert(i <= one); if j < two { assert(ilen(cur[j]) == 0); } if i < one { assert(iend(cur[i]) <= ipos(cur[one])); } }
    }
}
pub proof fn lemma_kill_two(cur: Seq<InnerOp>, orig: Seq<InnerOp>, one: int, two: int)
    requires pass_one(cur, orig, one, two), two < cur.len(), in_order(orig)
    ensures pass_one(cur.update(two, icut(cur[two], 0)), orig, one, two + 1)
{ reveal(pass_one); }
pub proof fn lemma_kill_one(cur: Seq<InnerOp>, orig: Seq<InnerOp>, one: int, two: int)
    requires pass_one(cur, orig, one, two), two < cur.len(), in_order(orig)
    ensures pass_one(cur.update(one, icut(cur[one], 0)), orig, two, two + 1)
{
    lemma_head(cur, orig, one, two);
    reveal(pass_one);
    let nw = cur.update(one, icut(cur[one], 0));
    assert forall|i: int, j: int| 0 <= i < j <= two && ilen(nw[i]) > 0 && (ilen(nw[j]) > 0 || j == two) implies iend(#[trigger] nw[i]) <= ipos(#[trigger] nw[j]) by {
        assert(i != one);
        if i > one { assert(ilen(cur[i]) == 0); }
        assert(nw[i] == cur[i]);
        if j > one { if j < two { assert(ilen(cur[j]) == 0); } assert(iend(cur[i]) <= ipos(cur[one])); }
    }
}
pub proof fn lemma_meet(cur: Seq<InnerOp>, orig: Seq<InnerOp>, one: int, two: int, m: int)
    requires pass_one(cur, orig, one, two), two < cur.len(), in_order(orig), ipos(cur[two]) <= m <= iend(cur[one]), iend(orig[two]) <= usize::MAX,
        match orig[two] { InnerOp::MatchSrc { start, length, o_pos } => start + length <= usize::MAX, InnerOp::MatchTrgt { start, length, o_pos } => start + length <= usize::MAX, _ => true },
        two + 1 < cur.len() ==> iend(cur[one]) <= ipos(cur[two + 1]),
    ensures pass_one(cur.update(one, icut(cur[one], m - ipos(cur[one]))).update(two, idrop(cur[two], m - ipos(cur[two]))), orig, two, two + 1)
{
    lemma_head(cur, orig, one, two);
    reveal(pass_one);
    let nw = cur.update(one, icut(cur[one], m - ipos(cur[one]))).update(two, idrop(cur[two], m - ipos(cur[two])));
    assert(ipos(nw[two]) == m && iend(nw[two]) == iend(cur[two]));
    assert(ipos(nw[one]) == ipos(cur[one]) && iend(nw[one]) == m);
    assert forall|i: int, j: int| 0 <= i < j <= two && ilen(nw[i]) > 0 && (ilen(nw[j]) > 0 || j == two) implies iend(#[trigger] nw[i]) <= ipos(#[trigger] nw[j]) by {
        if one < i { assert(ilen(cur[i]) == 0); }
        if one < j && j < two { assert(ilen(cur[j]) == 0); }
        if i < one { assert(nw[i] == cur[i]); assert(iend(cur[i]) <= ipos(cur[one])); }
        if j < one { assert(nw[j] == cur[j]); }
    }
    assert forall|j: int| two + 1 <= j < nw.len() implies ipos(nw[two]) <= ipos(#[trigger] nw[j]) && iend(nw[two]) <= iend(nw[j]) by {
        assert(nw[j] == cur[j]); assert(cur[j] == orig[j]); assert(cur[two + 1] == orig[two + 1]);
        if j > two + 1 { assert(ipos(orig[two + 1]) <= ipos(orig[j])); }
    }
}
pub proof fn lemma_grow(t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len()
    ensures t.take(a) + t.subrange(a, b) == t.take(b), t.take(a).len() == a
{ assert(t.take(a) + t.subrange(a, b) =~= t.take(b)); }

//@item smdiff-encoder/src/op_maker.rs fn translate_inner_ops
fn translate_inner_ops<'a>(trgt:&'a [u8], mut ops: Vec<InnerOp>)-> /*+*/ (r: /*-*/ Vec<Op<'a>> /*+*/)
    requires exists|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(ops@, src, trgt@)
    ensures neat(sops(r@)), forall|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(ops@, src, trgt@) ==> makes(sops(r@), src, trgt@)
/*-*/ {
    /*+*/ let ghost orig = ops@; let ghost s0 = choose|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(ops@, src, trgt@); 
    proof { assert(trgt@.len() == trgt.len()); assert(inner_ok(orig, s0, trgt@)); } /*-*/
    let ops_len = ops.len();
    let mut one = 0;
    /*+*/ proof { reveal(pass_one); reveal(good); } /*-*/
    {
    let mut vp_n = 1;
    let vp_end = ops_len;
    while vp_n < vp_end
        /*+*/ invariant
            vp_end == ops_len, vp_n >= 1, ops_len >= 1 ==> vp_n <= ops_len,
            ops_len == orig.len(), orig.len() == ops@.len(), trgt@.len() <= usize::MAX, ops_len >= 1 ==> pass_one(ops@, orig, one as int, vp_n as int), inner_ok(orig, s0, trgt@), s0.len() <= usize::MAX,
            good(ops@, orig, trgt@),
        decreases vp_end - vp_n, /*-*/
    {
        let two = vp_n;
        vp_n += 1;
        /*+*/ let ghost c0 = ops@; proof {
            lemma_head(c0, orig, one as int, two as int);
            lemma_good(c0, orig, s0, trgt@); assert(iop_ok(c0[one as int], s0, trgt@) && iop_ok(c0[two as int], s0, trgt@));
        } /*-*/
        let one_p = *ops[one].o_pos();
        let one_len = *ops[one].len();
        let one_end = one_p + one_len;
        let two_p = *ops[two].o_pos();
        assert!(one_p <= two_p, "Ops are not sorted by position");
        if one_end <= two_p {
            /*+*/ proof { lemma_keep(c0, orig, one as int, two as int); } /*-*/
            one = two;
            continue;
        }
        if two+1 < ops_len {
            let three = &ops[two+1];
            if one_end > *three.o_pos() {
                /*+*/ proof { lemma_kill_two(c0, orig, one as int, two as int); lemma_good_cut(c0, orig, trgt@, two as int, 0); } /*-*/
                ops.get_mut(two).unwrap().set_len(0);
                /*+*/ proof { assert(ops@ =~= c0.update(two as int, icut(c0[two as int], 0))); } /*-*/
                continue;
            }
        }

        let two_end = two_p + *ops[two].len();
        let span = two_end - one_p;
        if span <= 9 + 4 || two_p - one_p <= 4 {
            if one_len < *ops[two].len() {
                /*+*/ proof { lemma_kill_one(c0, orig, one as int, two as int); lemma_good_cut(c0, orig, trgt@, one as int, 0); } /*-*/
                ops.get_mut(one).unwrap().set_len(0);
                /*+*/ proof { assert(ops@ =~= c0.update(one as int, icut(c0[one as int], 0))); } /*-*/
                one = two;
            } else {
                /*+*/ proof { lemma_kill_two(c0, orig, one as int, two as int); lemma_good_cut(c0, orig, trgt@, two as int, 0); } /*-*/
                ops.get_mut(two).unwrap().set_len(0);
                /*+*/ proof { assert(ops@ =~= c0.update(two as int, icut(c0[two as int], 0))); } /*-*/
            }
            continue;
        }
        assert!(two_end >= one_end) ;
        let midpoint = two_p + (one_end - two_p) / 2;
        /*+*/ let ghost c1 = c0.update(one as int, icut(c0[one as int], midpoint - one_p)); proof {
            lemma_good_cut(c0, orig, trgt@, one as int, midpoint - one_p);
            lemma_good_drop(c1, orig, trgt@, two as int, midpoint - two_p);
            lemma_meet(c0, orig, one as int, two as int, midpoint as int);
        } /*-*/

        ops.get_mut(one).unwrap().set_len(midpoint - one_p);
        /*+*/ proof { assert(ops@ =~= c1); } /*-*/
        ops.get_mut(two).unwrap().set_o_pos(midpoint);
        /*+*/ proof { assert(ops@ =~= c1.update(two as int, idrop(c0[two as int], midpoint - two_p))); } /*-*/
        debug_assert!(ops[one].o_pos() + ops[one].len() == *ops[two].o_pos(), "Ops are not coincident!");
        one = two;
    }
    }
    /*+*/ let ghost fin = ops@; proof { lemma_apart(fin, orig, one as int); lemma_good(fin, orig, s0, trgt@); reveal(good); assert(trgt@.take(0) =~= nothing()); } /*-*/

    let mut out_ops = Vec::with_capacity(ops_len);
    let mut out_pos = 0;
    for op in /*+*/ it: /*-*/ ops.into_iter()
        /*+*/ invariant
            it.seq() == fin, apart(fin), all_ok(fin, s0, trgt@), out_pos <= trgt@.len() == trgt.len(), neat(sops(out_ops@)), inner_ok(orig, s0, trgt@), s0.len() <= usize::MAX,
            forall|j: int| it.index@ <= j < fin.len() && ilen(fin[j]) > 0 ==> out_pos <= ipos(#[trigger] fin[j]),
            forall|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(orig, src, trgt@) ==> all_ok(fin, src, trgt@),
            forall|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(orig, src, trgt@) ==> makes(sops(out_ops@), src, trgt@.take(out_pos as int)), /*-*/
    {
        /*+*/ let ghost n = it.index@; proof { assert(op == fin[n]); assert(iop_ok(fin[n], s0, trgt@)); } /*-*/
        if { let a = &op; *a.len() > 0 } {
        let o_pos = *op.o_pos();
        if o_pos > out_pos {
            /*+*/ proof { lemma_grow(trgt@, out_pos as int, o_pos as int); } /*-*/
            make_add_ops(&trgt[out_pos..o_pos], &mut out_ops);
            out_pos = o_pos;
        }
        assert!(o_pos == out_pos, "Ops are not sorted by position");
        let len = *op.len();
        /*+*/ let ghost v1 = out_ops@; let ghost t0 = trgt@.take(o_pos as int); let ghost c = trgt@.subrange(o_pos as int, o_pos + len);
        proof {
            lemma_grow(trgt@, o_pos as int, o_pos + len);
            assert forall|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(orig, src, trgt@) implies iop_ok(op, src, trgt@) by { assert(all_ok(fin, src, trgt@)); assert(iop_ok(fin[n], src, trgt@)); }
        } /*-*/
        match op {
            InnerOp::MatchSrc { start, length, .. } => {
                make_copy_ops(CopySrc::Dict, start, length, &mut out_ops);
            },
            InnerOp::MatchTrgt { start, length, .. } =>{
                assert!(start+length <= out_pos, "MatchTrgt exceeds output position {} >= {}", out_pos, start+length);
                make_copy_ops(CopySrc::Output, start, length, &mut out_ops);
                /*+*/ proof { assert(t0.subrange(start as int, start + length) =~= trgt@.subrange(start as int, start + length)); } /*-*/
            },
            InnerOp::Run { byte, length, .. } => {
                make_run_ops(byte, length, out_pos, &mut out_ops);
                /*+*/ proof { assert(rep(byte, length as int) =~= c); } /*-*/
            },
        }
        /*+*/ proof {
            assert forall|src: Seq<u8>| src.len() <= usize::MAX && #[trigger] inner_ok(orig, src, trgt@) implies makes(sops(out_ops@), src, trgt@.take(o_pos + len)) by {
                assert(makes(sops(v1), src, t0)); assert(iop_ok(op, src, trgt@));
            }
            assert forall|j: int| n + 1 <= j < fin.len() && ilen(fin[j]) > 0 implies o_pos + len <= ipos(#[trigger] fin[j]) by { assert(iend(fin[n]) <= ipos(fin[j])); }
        } /*-*/
        out_pos += len;
        }
    }
    /*+*/ proof { lemma_grow(trgt@, out_pos as int, trgt@.len() as int); assert(trgt@.take(trgt@.len() as int) =~= trgt@); assert(trgt@.skip(out_pos as int) =~= trgt@.subrange(out_pos as int, trgt@.len() as int)); } /*-*/
    if trgt.len() > out_pos {
        make_add_ops(&trgt[out_pos..], &mut out_ops);
    }
    out_ops
}
//@end

}
}
