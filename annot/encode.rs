// The search for matches (C01, C02).
pub mod encoder {
use vstd::prelude::*;
use crate::io::*;
use crate::hasher::*;
use crate::hashmap::*;
use crate::ranger::*;
use crate::inner::*;
use crate::src_matcher::*;
use crate::trgt_matcher::*;
verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExInstant(std::time::Instant);
pub assume_specification [std::time::Instant::now] () -> std::time::Instant;

#[derive(Copy, Clone)]
//@item smdiff-encoder/src/encoder.rs enum LargerTrgtNaiveTests
enum LargerTrgtNaiveTests{
    Prepend,
    Append,
    PrependAppend,
    AppendPrepend,
}
//@end
//@item smdiff-encoder/src/encoder.rs struct GenericEncoderConfig
struct GenericEncoderConfig{
    match_trgt: Option<TrgtMatcherConfig>,
    match_src: Option<SrcMatcherConfig>,
    lazy_escape_len: Option<usize>,
    naive_tests: Option<LargerTrgtNaiveTests>,
}
//@end
//@item smdiff-encoder/src/encoder.rs enum EncoderState
enum EncoderState{
    StartNewMatch,
    TryMatch,
    FoundMatch{match_len:usize},
    MoveForwardOneByte,
}
//@end
/// the configurations the encoder is claimed for
pub open spec fn inner_config_ok(c: GenericEncoderConfig) -> bool {
    (c.match_trgt matches Some(t) ==> trgt_config_ok(t)) && (c.match_src matches Some(s) ==> src_config_ok(s))
}

//@item smdiff-encoder/src/encoder.rs fn find_initial_run_len
fn find_initial_run_len(seg: &[u8], match_len: usize, run_byte: &mut u8) -> /*+*/ (r: /*-*/ usize /*+*/)
    requires match_len <= seg@.len()
    ensures r <= match_len, match_len >= 1 ==> r >= 1, forall|k: int| match_len - r <= k < match_len ==> #[trigger] seg@[k] == *final(run_byte)
/*-*/ {
    let mut run_len /*+*/ : usize /*-*/ = 0;
    let mut last_byte = *run_byte;
    for i in /*+*/ it: /*-*/ 0..match_len
        /*+*/ invariant match_len <= seg@.len(), seg.len() == seg@.len(), run_len <= it.index@, it.index@ >= 1 ==> run_len >= 1, it.index@ <= match_len, it.seq().len() == match_len,
            forall|k: int| it.index@ - run_len <= k < it.index@ ==> #[trigger] seg@[k] == last_byte, /*-*/
    {
        let next_char = seg[i];
        if last_byte == next_char{
            run_len += 1;
        }else{
            run_len = 1;
            last_byte = next_char;
        }
    }
    *run_byte = last_byte;
    run_len
}
//@end

//@item smdiff-encoder/src/encoder.rs fn clear_existing_ops
fn clear_existing_ops(ops:&mut Vec<InnerOp>,gte_start:usize)
    /*+*/ requires gte_start > 0
    ensures final(ops)@.len() <= old(ops)@.len(), final(ops)@ == old(ops)@.take(final(ops)@.len() as int), final(ops)@.len() > 0 ==> ipos(final(ops)@.last()) < gte_start /*-*/
{
    /*+*/ let ghost o0 = ops@; assert(ops@ =~= o0.take(ops@.len() as int)); /*-*/
    while (match ops.last() { Some(x) => Some(*x.o_pos()), None => None }).unwrap_or(0) >= gte_start
        /*+*/ invariant gte_start > 0, ops@.len() <= o0.len(), ops@ == o0.take(ops@.len() as int)
        ensures ops@.len() > 0 ==> ipos(ops@.last()) < gte_start
        decreases ops@.len() /*-*/
    {
        let _evicted = ops.pop().unwrap();
        /*+*/ assert(ops@ =~= o0.take(ops@.len() as int)); /*-*/
    }
}
//@end
// --- encode_inner
/// operations in order that produce what stands at their positions, which are at most `cur` and below `max`; they end at `lim` or before
#[verifier::opaque]
pub open spec fn ops_inv(ops: Seq<InnerOp>, src: Seq<u8>, trgt: Seq<u8>, cur: int, max: int, lim: int) -> bool {
    &&& inner_ok(ops, src, trgt)
    &&& forall|i: int| 0 <= i < ops.len() ==> ipos(#[trigger] ops[i]) <= cur && ipos(ops[i]) < max && iend(ops[i]) <= lim
}
pub proof fn lemma_none(src: Seq<u8>, trgt: Seq<u8>, cur: int, max: int, lim: int)
    ensures ops_inv(Seq::empty(), src, trgt, cur, max, lim)
{ reveal(ops_inv); }
pub proof fn lemma_done(ops: Seq<InnerOp>, src: Seq<u8>, trgt: Seq<u8>, cur: int, max: int, lim: int)
    requires ops_inv(ops, src, trgt, cur, max, lim)
    ensures inner_ok(ops, src, trgt), ops.len() > 0 ==> ipos(ops.last()) <= cur && ipos(ops.last()) < max && iend(ops.last()) <= lim && iend(ops.last()) <= trgt.len()
{ reveal(ops_inv); if ops.len() > 0 { assert(iop_ok(ops[ops.len() - 1], src, trgt)); } }
pub proof fn lemma_wider(ops: Seq<InnerOp>, src: Seq<u8>, trgt: Seq<u8>, cur: int, max: int, lim: int, cur2: int, lim2: int)
    requires ops_inv(ops, src, trgt, cur, max, lim), cur <= cur2, lim <= lim2
    ensures ops_inv(ops, src, trgt, cur2, max, lim2)
{ reveal(ops_inv); }
/// nothing ends after the last one
pub proof fn lemma_last_end(ops: Seq<InnerOp>, src: Seq<u8>, trgt: Seq<u8>, cur: int, max: int, lim: int, lim2: int)
    requires ops_inv(ops, src, trgt, cur, max, lim), ops.len() > 0 ==> iend(ops.last()) <= lim2
    ensures ops_inv(ops, src, trgt, cur, max, lim2)
{
    reveal(ops_inv);
    assert forall|i: int| 0 <= i < ops.len() implies iend(#[trigger] ops[i]) <= lim2 by { if i < ops.len() - 1 { assert(iend(ops[i]) <= iend(ops[ops.len() - 1])); } }
}
pub proof fn lemma_shorter(ops: Seq<InnerOp>, n: int, src: Seq<u8>, trgt: Seq<u8>, cur: int, max: int, lim: int)
    requires ops_inv(ops, src, trgt, cur, max, lim), 0 <= n <= ops.len()
    ensures ops_inv(ops.take(n), src, trgt, cur, max, lim)
{ reveal(ops_inv); let t = ops.take(n); assert forall|i: int| 0 <= i < t.len() implies iop_ok(#[trigger] t[i], src, trgt) && t[i] == ops[i] by { assert(iop_ok(ops[i], src, trgt)); } }
pub proof fn lemma_one_more(ops: Seq<InnerOp>, o: InnerOp, src: Seq<u8>, trgt: Seq<u8>, cur: int, max: int, lim: int, lim2: int)
    requires ops_inv(ops, src, trgt, cur, max, lim), iop_ok(o, src, trgt), ipos(o) <= cur, ipos(o) < max, lim <= iend(o) <= lim2, ops.len() > 0 ==> ipos(ops.last()) <= ipos(o)
    ensures ops_inv(ops.push(o), src, trgt, cur, max, lim2)
{
    reveal(ops_inv);
    let p = ops.push(o);
    assert forall|i: int| 0 <= i < ops.len() implies ipos(#[trigger] ops[i]) <= ipos(o) by { if i < ops.len() - 1 { assert(ipos(ops[i]) <= ipos(ops[ops.len() - 1])); } }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies ipos(#[trigger] p[i]) <= ipos(#[trigger] p[j]) && iend(p[i]) <= iend(p[j]) by { if j == ops.len() { assert(p[j] == o && p[i] == ops[i]); } else { assert(p[i] == ops[i] && p[j] == ops[j]); } }
    assert forall|i: int| 0 <= i < p.len() implies iop_ok(#[trigger] p[i], src, trgt) && ipos(p[i]) <= cur && ipos(p[i]) < max && iend(p[i]) <= lim2 by { if i < ops.len() { assert(p[i] == ops[i]); } else { assert(p[i] == o); } }
}
pub proof fn lemma_put_last(ops: Seq<InnerOp>, o: InnerOp, src: Seq<u8>, trgt: Seq<u8>, cur: int, max: int, lim: int)
    requires ops_inv(ops, src, trgt, cur, max, lim), iop_ok(o, src, trgt), ipos(o) == max, iend(o) == trgt.len()
    ensures inner_ok(ops.push(o), src, trgt)
{
    reveal(ops_inv);
    let p = ops.push(o);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies ipos(#[trigger] p[i]) <= ipos(#[trigger] p[j]) && iend(p[i]) <= iend(p[j]) by { assert(p[i] == ops[i]); assert(iop_ok(ops[i], src, trgt)); if j == ops.len() { assert(p[j] == o); } else { assert(p[j] == ops[j]); } }
    assert forall|i: int| 0 <= i < p.len() implies iop_ok(#[trigger] p[i], src, trgt) by { if i < ops.len() { assert(p[i] == ops[i]); } else { assert(p[i] == o); } }
}
pub proof fn lemma_same_sub(a: Seq<u8>, i: int, b: Seq<u8>, j: int, n: int)
    requires same_at(a, i, b, j, n), n >= 0
    ensures a.subrange(i, i + n) == b.subrange(j, j + n)
{ assert forall|k: int| 0 <= k < n implies #[trigger] a.subrange(i, i + n)[k] == b.subrange(j, j + n)[k] by { assert(a[i + k] == b[j + k]); } assert(a.subrange(i, i + n) =~= b.subrange(j, j + n)); }

/// the source matcher stands at `cur`, or (not synced) before it, and holds the checksum of the window there
#[verifier::opaque]
pub open spec fn sm_inv(m: SrcMatcher, src: Seq<u8>, trgt: Seq<u8>, cur: int, synced: bool) -> bool {
    &&& m.wf(src, trgt)
    &&& cur <= m.max_fwd_hash_pos ==> m.fwd_pos <= cur && (synced ==> m.fwd_pos == cur) && (trgt.len() >= 9 ==> m.fwd_hash == hash_at(trgt, m.fwd_pos as int))
    &&& synced && cur > m.max_fwd_hash_pos ==> m.fwd_pos >= m.max_fwd_hash_pos
}
#[verifier::opaque]
pub open spec fn tm_inv(m: TrgtMatcher, trgt: Seq<u8>, cur: int, synced: bool) -> bool {
    &&& m.wf(trgt, cur)
    &&& m.fwd_pos <= cur && (synced ==> m.fwd_pos == cur)
    &&& m.fwd_pos + 4 <= trgt.len() ==> m.fwd_hash == small_at(trgt, m.fwd_pos as int)
}
pub open spec fn opt_sm(m: Option<SrcMatcher>, src: Seq<u8>, trgt: Seq<u8>, cur: int, synced: bool) -> bool { m matches Some(x) ==> sm_inv(x, src, trgt, cur, synced) }
pub open spec fn opt_tm(m: Option<TrgtMatcher>, trgt: Seq<u8>, cur: int, synced: bool) -> bool { m matches Some(x) ==> tm_inv(x, trgt, cur, synced) }
proof fn lemma_moved(s: Option<SrcMatcher>, t: Option<TrgtMatcher>, src: Seq<u8>, trgt: Seq<u8>, cur: int, cur2: int)
    requires opt_sm(s, src, trgt, cur, true), opt_tm(t, trgt, cur, true), cur <= cur2 <= trgt.len()
    ensures opt_sm(s, src, trgt, cur2, false), opt_tm(t, trgt, cur2, false)
{
    reveal(sm_inv); reveal(tm_inv);
    if let Some(m) = t { lemma_later(m, trgt, cur, cur2); }
}
pub open spec fn sm_facts(m: SrcMatcher, trgt: Seq<u8>, cur: int, synced: bool) -> bool {
    &&& m.max_fwd_hash_pos == less9(trgt.len() as int)
    &&& cur <= m.max_fwd_hash_pos ==> m.fwd_pos <= cur && (synced ==> m.fwd_pos == cur) && (trgt.len() >= 9 ==> m.fwd_hash == hash_at(trgt, m.fwd_pos as int))
    &&& synced && cur > m.max_fwd_hash_pos ==> m.fwd_pos >= m.max_fwd_hash_pos
}
pub open spec fn tm_facts(m: TrgtMatcher, trgt: Seq<u8>, cur: int, synced: bool) -> bool {
    &&& m.max_fwd_hash_pos == less4(trgt.len() as int)
    &&& m.fwd_pos <= cur && (synced ==> m.fwd_pos == cur)
    &&& m.fwd_pos + 4 <= trgt.len() ==> m.fwd_hash == small_at(trgt, m.fwd_pos as int)
}
proof fn lemma_sm_open(m: SrcMatcher, src: Seq<u8>, trgt: Seq<u8>, cur: int, synced: bool)
    requires sm_inv(m, src, trgt, cur, synced)
    ensures m.wf(src, trgt), sm_facts(m, trgt, cur, synced)
{ reveal(sm_inv); }
proof fn lemma_sm_close(m: SrcMatcher, m0: SrcMatcher, src: Seq<u8>, trgt: Seq<u8>, cur: int, synced: bool)
    requires m0.wf(src, trgt), m == (SrcMatcher { fwd_hash: m.fwd_hash, fwd_pos: m.fwd_pos, ..m0 }), sm_facts(m, trgt, cur, synced)
    ensures sm_inv(m, src, trgt, cur, synced)
{ reveal(sm_inv); }
proof fn lemma_tm_open(m: TrgtMatcher, trgt: Seq<u8>, cur: int, synced: bool)
    requires tm_inv(m, trgt, cur, synced)
    ensures m.wf(trgt, cur), tm_facts(m, trgt, cur, synced), m.table.wf(true), m.chain.wf(), fits(m.fwd_hash as usize, true)
{ reveal(tm_inv); }
proof fn lemma_tm_close(m: TrgtMatcher, m0: TrgtMatcher, trgt: Seq<u8>, n: int, cur: int, synced: bool)
    requires m0.wf(trgt, n), n <= cur <= trgt.len(), m == (TrgtMatcher { fwd_hash: m.fwd_hash, fwd_pos: m.fwd_pos, ..m0 }), tm_facts(m, trgt, cur, synced)
    ensures tm_inv(m, trgt, cur, synced)
{ reveal(tm_inv); lemma_later(m, trgt, n, cur); }
proof fn lemma_sm_max(m: SrcMatcher, src: Seq<u8>, trgt: Seq<u8>)
    requires m.wf(src, trgt)
    ensures m.max_fwd_hash_pos == less9(trgt.len() as int)
{ }
proof fn lemma_built(s: Option<SrcMatcher>, t: Option<TrgtMatcher>, src: Seq<u8>, trgt: Seq<u8>, cur: int)
    requires
        0 <= cur <= trgt.len(),
        s matches Some(r) ==> r.wf(src, trgt) && (cur + 9 <= trgt.len() ==> r.fwd_pos == cur && r.fwd_hash == hash_at(trgt, cur)) && (cur + 9 > trgt.len() ==> r.fwd_pos == r.max_fwd_hash_pos),
        t matches Some(r) ==> r.wf(trgt, cur) && r.fwd_pos == cur && (cur + 4 <= trgt.len() ==> r.fwd_hash == small_at(trgt, cur)),
    ensures opt_sm(s, src, trgt, cur, false), opt_tm(t, trgt, cur, false)
{ reveal(sm_inv); reveal(tm_inv); }
proof fn lemma_iop_src(start: usize, length: usize, o_pos: usize, src: Seq<u8>, trgt: Seq<u8>)
    requires start + length <= src.len(), o_pos + length <= trgt.len(), src.subrange(start as int, start + length) == trgt.subrange(o_pos as int, o_pos + length)
    ensures iop_ok(InnerOp::MatchSrc { start, length, o_pos }, src, trgt)
{ }
proof fn lemma_iop_trgt(start: usize, length: usize, o_pos: usize, src: Seq<u8>, trgt: Seq<u8>)
    requires start + length <= o_pos, o_pos + length <= trgt.len(), trgt.subrange(start as int, start + length) == trgt.subrange(o_pos as int, o_pos + length)
    ensures iop_ok(InnerOp::MatchTrgt { start, length, o_pos }, src, trgt)
{ }
proof fn lemma_iop_run(byte: u8, length: usize, o_pos: usize, src: Seq<u8>, trgt: Seq<u8>)
    requires o_pos + length <= trgt.len(), forall|k: int| o_pos <= k < o_pos + length ==> #[trigger] trgt[k] == byte
    ensures iop_ok(InnerOp::Run { byte, length, o_pos }, src, trgt)
{ }
proof fn lemma_no_ops(src: Seq<u8>, trgt: Seq<u8>)
    ensures inner_ok(Seq::empty(), src, trgt)
{ }
proof fn lemma_large_next(trgt: Seq<u8>, p: int, old: usize, new: usize)
    requires 0 <= p, p + 10 <= trgt.len(), old == hash_at(trgt, p),
        forall|d: Seq<u8>| d.len() == 10 && d[0] == trgt[p] && d[9] == trgt[p + 9] && old == #[trigger] large(d.take(9)) ==> new == large(d.skip(1)),
    ensures new == hash_at(trgt, p + 1)
{
    let d = trgt.subrange(p, p + 10);
    assert(d.skip(1) =~= window(trgt, p + 1)); assert(d.take(9) =~= window(trgt, p));
    lemma_large_range(d.skip(1)); lemma_large_range(d.take(9));
}
proof fn lemma_small_next(trgt: Seq<u8>, p: int, old: u32, new: u32)
    requires 0 <= p, p + 5 <= trgt.len(), old == small_at(trgt, p),
        forall|d: Seq<u8>| d.len() == 5 && d[0] == trgt[p] && d[4] == trgt[p + 4] && old == #[trigger] small(d.take(4)) ==> new == small(d.skip(1)),
    ensures new == small_at(trgt, p + 1)
{
    let d = trgt.subrange(p, p + 5);
    assert(d.take(4) =~= trgt.subrange(p, p + 4)); assert(d.skip(1) =~= trgt.subrange(p + 1, p + 5));
    lemma_small_range(d.take(4)); lemma_small_range(d.skip(1));
}
/// the last n (at most four) of the four bytes at p are b
pub open spec fn run_at(trgt: Seq<u8>, p: int, n: int, b: u8) -> bool { forall|k: int| p + 4 - (if n < 4 { n } else { 4 }) <= k < p + 4 ==> #[trigger] trgt[k] == b }
pub open spec fn rank(s: EncoderState) -> int { match s { EncoderState::StartNewMatch => 3, EncoderState::TryMatch => 2, EncoderState::FoundMatch { .. } => 1, EncoderState::MoveForwardOneByte => 0 } }
/// where the operations found so far end at the latest
pub open spec fn bound(s: EncoderState, cur: int, min_match: int, n: int) -> int {
    match s { EncoderState::StartNewMatch => n, EncoderState::TryMatch => cur + min_match - 1, EncoderState::FoundMatch { match_len } => cur + match_len, EncoderState::MoveForwardOneByte => cur + min_match }
}

proof fn lemma_naive(src: Seq<u8>, trgt: Seq<u8>)
    requires src.len() < trgt.len()
    ensures
        src.is_prefix_of(trgt) ==> src.subrange(0, src.len() as int) == trgt.subrange(0, src.len() as int),
        src.is_suffix_of(trgt) ==> trgt.subrange(trgt.len() - src.len(), trgt.len() as int) == src,
{
    if src.is_prefix_of(trgt) { assert(src.subrange(0, src.len() as int) =~= trgt.subrange(0, src.len() as int)); }
    if src.is_suffix_of(trgt) { assert(trgt.subrange(trgt.len() - src.len(), trgt.len() as int) =~= src); }
}
//@item smdiff-encoder/src/encoder.rs fn encode_inner
#[verifier::rlimit(120)]
#[verifier::spinoff_prover]
fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8])->/*+*/ (r: /*-*/ Vec<InnerOp> /*+*/)
    requires inner_config_ok(*old(config)), src@.len() < max_file(), trgt@.len() < max_trgt()
    ensures inner_ok(r@, src@, trgt@)
/*-*/{
    /*+*/ hide(SrcMatcher::wf); hide(TrgtMatcher::wf); hide(inner_ok); hide(iop_ok);
    assert(src.len() == src@.len() && trgt.len() == trgt@.len()); /*-*/
    let naive_tests = config.naive_tests;

    let trgt_len = trgt.len();
    if (config.match_src.is_none() && config.match_trgt.is_none())
        || (src.len() == 0 && config.match_trgt.is_none())
        || trgt_len == 0 {
        /*+*/ proof { lemma_no_ops(src@, trgt@); } /*-*/
        return vec![];
    }
    let src_len = src.len();
    let mut ops /*+*/ : Vec<InnerOp> /*-*/ = Vec::new();
    let mut max_trgt_match_len = trgt_len;
    let mut cur_o_pos /*+*/ : usize /*-*/ = 0;
    /*+*/ proof { lemma_none(src@, trgt@, 0, trgt_len as int, 0); assert(ops@ =~= Seq::empty()); } /*-*/
    if trgt_len > src_len && naive_tests.is_some(){
        let naive_tests = naive_tests.unwrap();
        /*+*/ proof { lemma_naive(src@, trgt@); lemma_none(src@, trgt@, 0, trgt_len - src_len, 0); } /*-*/
        match naive_tests {
            LargerTrgtNaiveTests::Append => {{ let segs: &mut Vec<InnerOp> = &mut ops; let cur_o: &mut usize = &mut cur_o_pos; {
            if trgt.starts_with(src) {
                /*+*/ let ghost v0 = segs@; /*-*/
                segs.push(InnerOp::MatchSrc {start: 0,length: src.len(),o_pos: 0});
                /*+*/ proof { lemma_iop_src(0, src_len, 0, src@, trgt@); lemma_one_more(v0, segs@.last(), src@, trgt@, 0, trgt_len as int, 0, src_len as int); assert(segs@ =~= v0.push(segs@.last())); lemma_wider(segs@, src@, trgt@, 0, trgt_len as int, src_len as int, src_len as int, src_len as int); } /*-*/
                *cur_o = src.len();
                true
            } else {false} } };},
            LargerTrgtNaiveTests::Prepend => {{ let max_t_len: &mut usize = &mut max_trgt_match_len; { if trgt.ends_with(src) {*max_t_len = trgt_len - src_len;true} else {false} } };},
            LargerTrgtNaiveTests::AppendPrepend => {
                if !{ let segs: &mut Vec<InnerOp> = &mut ops; let cur_o: &mut usize = &mut cur_o_pos; {
            if trgt.starts_with(src) {
                /*+*/ let ghost v0 = segs@; /*-*/
                segs.push(InnerOp::MatchSrc {start: 0,length: src.len(),o_pos: 0});
                /*+*/ proof { lemma_iop_src(0, src_len, 0, src@, trgt@); lemma_one_more(v0, segs@.last(), src@, trgt@, 0, trgt_len as int, 0, src_len as int); assert(segs@ =~= v0.push(segs@.last())); lemma_wider(segs@, src@, trgt@, 0, trgt_len as int, src_len as int, src_len as int, src_len as int); } /*-*/
                *cur_o = src.len();
                true
            } else {false} } }{{ let max_t_len: &mut usize = &mut max_trgt_match_len; { if trgt.ends_with(src) {*max_t_len = trgt_len - src_len;true} else {false} } };}
            }
            LargerTrgtNaiveTests::PrependAppend => {
                if !{ let max_t_len: &mut usize = &mut max_trgt_match_len; { if trgt.ends_with(src) {*max_t_len = trgt_len - src_len;true} else {false} } }{{ let segs: &mut Vec<InnerOp> = &mut ops; let cur_o: &mut usize = &mut cur_o_pos; {
            if trgt.starts_with(src) {
                /*+*/ let ghost v0 = segs@; /*-*/
                segs.push(InnerOp::MatchSrc {start: 0,length: src.len(),o_pos: 0});
                /*+*/ proof { lemma_iop_src(0, src_len, 0, src@, trgt@); lemma_one_more(v0, segs@.last(), src@, trgt@, 0, trgt_len as int, 0, src_len as int); assert(segs@ =~= v0.push(segs@.last())); lemma_wider(segs@, src@, trgt@, 0, trgt_len as int, src_len as int, src_len as int, src_len as int); } /*-*/
                *cur_o = src.len();
                true
            } else {false} } };}
            }
        }
    }
    /*+*/ proof {
        assert(cur_o_pos == 0 || cur_o_pos == src_len);
        assert(max_trgt_match_len == trgt_len || (max_trgt_match_len == trgt_len - src_len && trgt_len > src_len && trgt@.subrange(trgt_len - src_len, trgt_len as int) == src@));
    } /*-*/

    let _start = std::time::Instant::now();
    let mut trgt_matcher = (match config.match_trgt.as_mut() { Some(c) => Some(c.build(trgt, cur_o_pos)), None => None });
    let mut src_matcher = (match config.match_src.as_mut() { Some(c) => Some(c.build(src, cur_o_pos, trgt)), None => None });
    /*+*/ proof { lemma_built(src_matcher, trgt_matcher, src@, trgt@, cur_o_pos as int);
        lemma_wider(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos as int, cur_o_pos as int, trgt_len as int); } /*-*/
    let lazy_escape_len = config.lazy_escape_len.unwrap_or(90);

    let min_match_value /*+*/ : usize /*-*/ = 4;
    let mut min_match= min_match_value;
    let mut run_len /*+*/ : usize /*-*/ = 0;
    let mut run_byte /*+*/ : u8 /*-*/ = 0;
    let mut state = EncoderState::StartNewMatch;
    let _start = std::time::Instant::now();
    loop 
        /*+*/ invariant
            src.len() == src@.len() == src_len, trgt.len() == trgt@.len() == trgt_len, src_len < max_file(), trgt_len < max_trgt(),
            min_match_value == 4 <= min_match <= trgt_len + 4, cur_o_pos <= trgt_len, max_trgt_match_len <= trgt_len,
            ops_inv(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, bound(state, cur_o_pos as int, min_match as int, trgt_len as int)),
            opt_sm(src_matcher, src@, trgt@, cur_o_pos as int, !(state is StartNewMatch)),
            opt_tm(trgt_matcher, trgt@, cur_o_pos as int, !(state is StartNewMatch)),
            run_len <= trgt_len + cur_o_pos, !(state is StartNewMatch) && cur_o_pos + 4 <= trgt_len ==> run_at(trgt@, cur_o_pos as int, run_len as int, run_byte),
            state matches EncoderState::FoundMatch { match_len } ==> match_len >= 4 && cur_o_pos + match_len <= trgt_len,
            max_trgt_match_len == trgt_len || (max_trgt_match_len == trgt_len - src_len && trgt_len > src_len && trgt@.subrange(trgt_len - src_len, trgt_len as int) == src@),
        decreases trgt_len - cur_o_pos, rank(state) /*-*/
    {
        if cur_o_pos + min_match_value >= max_trgt_match_len {
            break;
        }
        match state{
            EncoderState::StartNewMatch => {
                run_len = find_initial_run_len(&trgt[cur_o_pos..], min_match_value, &mut run_byte);
                /*+*/ proof {
                    let seg = trgt@.subrange(cur_o_pos as int, trgt_len as int);
                    assert forall|k: int| cur_o_pos + 4 - run_len <= k < cur_o_pos + 4 implies #[trigger] trgt@[k] == run_byte by { assert(seg[k - cur_o_pos] == run_byte); }
                } /*-*/

                if let Some(matcher) = src_matcher.as_mut(){
                    /*+*/ proof { lemma_sm_open(*matcher, src@, trgt@, cur_o_pos as int, false); } /*-*/
                    if matcher.next_hash_pos <= cur_o_pos{
                        add_start_positions_to_matcher(matcher, cur_o_pos, src)
                    }
                    /*+*/ let ghost mw = *matcher; proof { assert(mw.wf(src@, trgt@)); lemma_sm_max(mw, src@, trgt@); } /*-*/
                    if matcher.fwd_pos < matcher.max_fwd_hash_pos{
                        if cur_o_pos > matcher.max_fwd_hash_pos{
                        }else if matcher.fwd_pos + 9 > cur_o_pos{
                            /*+*/ let ghost m0 = *matcher; /*-*/
                            for old_pos in /*+*/ it: /*-*/ matcher.fwd_pos..cur_o_pos
                                /*+*/ invariant
                                    *matcher == (SrcMatcher { fwd_hash: matcher.fwd_hash, ..m0 }), it.seq().len() == cur_o_pos - m0.fwd_pos, forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == m0.fwd_pos + k, m0.fwd_pos <= cur_o_pos,
                                    cur_o_pos + 9 <= trgt_len, trgt.len() == trgt@.len() == trgt_len,
                                    matcher.fwd_hash == hash_at(trgt@, m0.fwd_pos + it.index@), /*-*/
                            {
                                /*+*/ let ghost h0 = matcher.fwd_hash; /*-*/
                                matcher.fwd_hash = update_large_checksum_fwd(matcher.fwd_hash, trgt[old_pos], trgt[old_pos+9]);
                                /*+*/ proof { lemma_large_next(trgt@, old_pos as int, h0, matcher.fwd_hash); } /*-*/
                            }
                        }else{
                            matcher.fwd_hash = calculate_large_checksum(&trgt[cur_o_pos..cur_o_pos+9]);
                            /*+*/ proof { lemma_large_range(window(trgt@, cur_o_pos as int)); } /*-*/
                        }
                        matcher.fwd_pos = cur_o_pos;
                    }
                    /*+*/ proof { lemma_sm_close(*matcher, mw, src@, trgt@, cur_o_pos as int, true); } /*-*/
                };
                if let Some(matcher) = trgt_matcher.as_mut(){
                    /*+*/ let ghost mw = *matcher; proof { lemma_tm_open(mw, trgt@, cur_o_pos as int, false); } /*-*/
                    if matcher.fwd_pos < matcher.max_fwd_hash_pos{
                        if matcher.fwd_pos + 4 > cur_o_pos{
                            /*+*/ let ghost m0 = *matcher; /*-*/
                            for old_pos in /*+*/ it: /*-*/ matcher.fwd_pos..cur_o_pos
                                /*+*/ invariant
                                    *matcher == (TrgtMatcher { fwd_hash: matcher.fwd_hash, ..m0 }), it.seq().len() == cur_o_pos - m0.fwd_pos, forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == m0.fwd_pos + k, m0.fwd_pos <= cur_o_pos,
                                    cur_o_pos + 4 <= trgt_len, trgt.len() == trgt@.len() == trgt_len,
                                    matcher.fwd_hash == small_at(trgt@, m0.fwd_pos + it.index@), /*-*/
                            {
                                /*+*/ let ghost h0 = matcher.fwd_hash; /*-*/
                                matcher.fwd_hash = update_small_checksum_fwd(matcher.fwd_hash, trgt[old_pos], trgt[old_pos+4]);
                                /*+*/ proof { lemma_small_next(trgt@, old_pos as int, h0, matcher.fwd_hash); } /*-*/
                            }
                        }else{
                            matcher.fwd_hash = calculate_small_checksum(&trgt[cur_o_pos..cur_o_pos+4]);
                            /*+*/ proof { lemma_small_range(trgt@.subrange(cur_o_pos as int, cur_o_pos + 4)); } /*-*/
                        }
                        matcher.fwd_pos = cur_o_pos;
                    }
                    /*+*/ proof { lemma_tm_close(*matcher, mw, trgt@, cur_o_pos as int, cur_o_pos as int, true); } /*-*/
                }
                /*+*/ proof { lemma_done(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, trgt_len as int); } /*-*/
                let last_match_end_pos = (match ops.last() { Some(x) => Some(x.o_pos()+x.len()), None => None }).unwrap_or(0);
                /*+*/ proof { lemma_last_end(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, trgt_len as int, last_match_end_pos as int); } /*-*/
                min_match = if last_match_end_pos > cur_o_pos {
                    min_match_value.max(1 + last_match_end_pos - cur_o_pos)
                } else {min_match_value};
                /*+*/ proof { lemma_wider(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, last_match_end_pos as int, cur_o_pos as int, cur_o_pos + min_match - 1); } /*-*/
                state = EncoderState::TryMatch;
            },
            EncoderState::TryMatch => {
                /*+*/ proof { lemma_done(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos + min_match - 1); } /*-*/
                let remaining_trgt = &trgt[cur_o_pos..];
                if run_len == min_match_value{
                    for x in /*+*/ it: /*-*/ remaining_trgt[min_match_value..].iter()
                        /*+*/ invariant_except_break
                            run_len == 4 + it.index@,
                            forall|k: int| cur_o_pos <= k < cur_o_pos + run_len ==> #[trigger] trgt@[k] == run_byte,
                        invariant
                            cur_o_pos + 4 <= trgt_len == trgt@.len(), it.seq().len() == trgt_len - cur_o_pos - 4,
                            forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == trgt@[cur_o_pos + 4 + k],
                        ensures
                            4 <= run_len <= trgt_len - cur_o_pos, forall|k: int| cur_o_pos <= k < cur_o_pos + run_len ==> #[trigger] trgt@[k] == run_byte,
                            cur_o_pos + run_len < trgt_len ==> trgt@[cur_o_pos + run_len] != run_byte, /*-*/
                    { if !(x == &run_byte) { break; } run_len += 1; }
                    if run_len >= min_match{
                        let run_start = cur_o_pos;
                        debug_assert!({ let mut vp_c: usize = 0; for vp_x in /*+*/ it: /*-*/ trgt[run_start..].iter()
                            /*+*/ invariant_except_break
                                vp_c == it.index@,
                                forall|k: int| cur_o_pos <= k < cur_o_pos + vp_c ==> #[trigger] trgt@[k] == run_byte,
                            invariant
                                cur_o_pos == run_start, cur_o_pos <= trgt_len == trgt@.len(), it.seq().len() == trgt_len - cur_o_pos,
                                forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == trgt@[cur_o_pos + k],
                            ensures
                                vp_c <= trgt_len - cur_o_pos, forall|k: int| cur_o_pos <= k < cur_o_pos + vp_c ==> #[trigger] trgt@[k] == run_byte,
                                cur_o_pos + vp_c < trgt_len ==> trgt@[cur_o_pos + vp_c] != run_byte, /*-*/
                            { let x = &vp_x; if !(*x == &run_byte) { break; } vp_c += 1; } vp_c } == run_len);
                        /*+*/ let ghost v0 = ops@; /*-*/
                        ops.push(InnerOp::Run{byte:run_byte as u8,length:run_len,o_pos:run_start});
                        /*+*/ proof { lemma_iop_run(run_byte, run_len, run_start, src@, trgt@); lemma_one_more(v0, ops@.last(), src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos + min_match - 1, cur_o_pos + run_len); assert(ops@ =~= v0.push(ops@.last())); } /*-*/
                        state = EncoderState::FoundMatch { match_len: run_len };
                        continue;
                    }
                }

                if let Some(matcher) = src_matcher.as_mut(){
                    if cur_o_pos + 9 <= max_trgt_match_len{
                        /*+*/ proof { lemma_sm_open(*matcher, src@, trgt@, cur_o_pos as int, true); } /*-*/
                        debug_assert!(matcher.fwd_pos == cur_o_pos, "lh.pos {} != cur o {}",matcher.fwd_pos,cur_o_pos);
                        if let Some((src_start,pre_match,post_match)) = matcher.find_best_src_match(src, trgt) {
                            let length = pre_match + post_match;
                            if post_match >= min_match{
                                let trgt_match_start = cur_o_pos - pre_match;
                                /*+*/ let ghost v0 = ops@; proof { assert(v0 =~= v0.take(v0.len() as int)); } /*-*/
                                if pre_match > 0{
                                    clear_existing_ops(&mut ops, trgt_match_start)
                                }
                                let src_match_start = src_start - pre_match;
                                /*+*/ let ghost v1 = ops@; proof {
                                    lemma_shorter(v0, v1.len() as int, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos + min_match - 1);
                                    lemma_same_sub(src@, src_match_start as int, trgt@, trgt_match_start as int, length as int);
                                } /*-*/
                                debug_assert!(src_match_start + length <= src_len);
                                debug_assert!(src[src_match_start..src_match_start+length] == trgt[trgt_match_start..trgt_match_start+length]);
                                ops.push(InnerOp::MatchSrc{start:src_match_start, length, o_pos:trgt_match_start});
                                /*+*/ proof { lemma_iop_src(src_match_start, length, trgt_match_start, src@, trgt@); lemma_one_more(v1, ops@.last(), src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos + min_match - 1, cur_o_pos + post_match); assert(ops@ =~= v1.push(ops@.last())); } /*-*/
                                state = EncoderState::FoundMatch { match_len: post_match };
                                continue;
                            }
                        }
                    }
                }

                if let Some(matcher) = trgt_matcher.as_mut(){
                    if cur_o_pos + 4 <= max_trgt_match_len{
                        /*+*/ proof { lemma_tm_open(*matcher, trgt@, cur_o_pos as int, true); } /*-*/
                        debug_assert!(matcher.fwd_pos == cur_o_pos, "sh.pos {} != cur o {}",matcher.fwd_pos,cur_o_pos);
                        if let Some((match_start,length)) = matcher.find_best_trgt_match(trgt,min_match) {
                            if length >= min_match{
                                /*+*/ let ghost v1 = ops@; proof { lemma_same_sub(trgt@, match_start as int, trgt@, cur_o_pos as int, length as int); } /*-*/
                                debug_assert!(match_start + length <= cur_o_pos);
                                debug_assert!(trgt[match_start..match_start+length] == trgt[cur_o_pos..cur_o_pos+length]);
                                ops.push(InnerOp::MatchTrgt{start:match_start, length, o_pos:cur_o_pos});
                                /*+*/ proof { lemma_iop_trgt(match_start, length, cur_o_pos, src@, trgt@); lemma_one_more(v1, ops@.last(), src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos + min_match - 1, cur_o_pos + length); assert(ops@ =~= v1.push(ops@.last())); } /*-*/
                                state = EncoderState::FoundMatch { match_len: length };
                                continue;
                            }
                        }
                    }
                }

                /*+*/ let ghost mm = min_match; /*-*/
                if min_match > min_match_value{
                    min_match -= 1;
                }
                /*+*/ proof { lemma_wider(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos + mm - 1, cur_o_pos as int, cur_o_pos + min_match); } /*-*/
                state = EncoderState::MoveForwardOneByte;
            },
            EncoderState::FoundMatch{ match_len } => {
                if lazy_escape_len > 0
                    && match_len < lazy_escape_len
                    && cur_o_pos + match_len < max_trgt_match_len - 1
                {
                    min_match = match_len;
                    state = EncoderState::MoveForwardOneByte;
                }else{
                    /*+*/ proof {
                        lemma_moved(src_matcher, trgt_matcher, src@, trgt@, cur_o_pos as int, cur_o_pos + match_len);
                        lemma_wider(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos + match_len, cur_o_pos + match_len, trgt_len as int);
                    } /*-*/
                    cur_o_pos += match_len;
                    state = EncoderState::StartNewMatch;
                }
            },
            EncoderState::MoveForwardOneByte => {
                let next_char = trgt[cur_o_pos + min_match_value];
                if run_byte == next_char{
                    run_len += 1;
                }else{
                    run_len = 1;
                    run_byte = next_char;
                }
                if let Some(matcher) = trgt_matcher.as_mut() {
                    /*+*/ let ghost m0 = *matcher; proof { lemma_tm_open(m0, trgt@, cur_o_pos as int, true); } /*-*/
                    matcher.store(matcher.fwd_hash as usize, cur_o_pos);
                    /*+*/ let ghost mw = *matcher; proof { assert(mw.wf(trgt@, cur_o_pos as int)); } let ghost h0 = matcher.fwd_hash; /*-*/
                    if matcher.fwd_pos < matcher.max_fwd_hash_pos{
                        matcher.fwd_hash = update_small_checksum_fwd(matcher.fwd_hash, trgt[cur_o_pos], trgt[cur_o_pos+4]);
                        matcher.fwd_pos = cur_o_pos+1;
                        /*+*/ proof { lemma_small_next(trgt@, cur_o_pos as int, h0, matcher.fwd_hash); } /*-*/
                    }
                    /*+*/ proof { lemma_tm_close(*matcher, mw, trgt@, cur_o_pos as int, cur_o_pos + 1, true); } /*-*/
                }
                if let Some(m) = src_matcher.as_mut(){
                    /*+*/ let ghost mw = *m; proof { lemma_sm_open(mw, src@, trgt@, cur_o_pos as int, true); } let ghost h0 = m.fwd_hash; /*-*/
                    if m.fwd_pos < m.max_fwd_hash_pos{
                        m.fwd_hash = update_large_checksum_fwd(m.fwd_hash, trgt[cur_o_pos], trgt[cur_o_pos+9]);
                        m.fwd_pos = cur_o_pos+1;
                        /*+*/ proof { lemma_large_next(trgt@, cur_o_pos as int, h0, m.fwd_hash); } /*-*/
                    }
                    /*+*/ proof { lemma_sm_close(*m, mw, src@, trgt@, cur_o_pos + 1, true); } /*-*/
                }
                /*+*/ proof { lemma_wider(ops@, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, cur_o_pos + min_match, cur_o_pos + 1, cur_o_pos + min_match); } /*-*/
                cur_o_pos += 1;
                state = EncoderState::TryMatch;
            },
        }
    }
    assert!(cur_o_pos<=trgt_len);
    /*+*/ let ghost v1 = ops@; let ghost lim = bound(state, cur_o_pos as int, min_match as int, trgt_len as int); proof { lemma_done(v1, src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, lim); } /*-*/
    if max_trgt_match_len < trgt_len{
        ops.push(InnerOp::MatchSrc { start: 0, length: src_len, o_pos: max_trgt_match_len });
        /*+*/ proof {
            assert(src@.subrange(0, src_len as int) =~= src@);
            lemma_iop_src(0, src_len, max_trgt_match_len, src@, trgt@); lemma_put_last(v1, ops@.last(), src@, trgt@, cur_o_pos as int, max_trgt_match_len as int, lim);
            assert(ops@ =~= v1.push(ops@.last()));
        } /*-*/
    }

    ops

}
//@end

}
}
