// Matches in the source (C01, C02, C14).
pub mod src_matcher {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::io::*;
use crate::hasher::*;
use crate::hashmap::*;
use crate::ranger::*;
verus! {

/// the sizes of files the encoder is claimed for
pub open spec fn max_file() -> int { 0x1_0000_0000 }
/// n bytes of a at i are n bytes of b at j
pub open spec fn same_at(a: Seq<u8>, i: int, b: Seq<u8>, j: int, n: int) -> bool {
    0 <= i && 0 <= j && i + n <= a.len() && j + n <= b.len() && forall|k: int| 0 <= k < n ==> #[trigger] a[i + k] == b[j + k]
}
proof fn lemma_mod_align(p: int, s: int)
    requires s > 0, p >= 0
    ensures 0 <= p - p % s <= p, (p - p % s) % s == 0, p - s < p - p % s
{
    lemma_fundamental_div_mod(p, s);
    lemma_mod_bound(p, s);
    lemma_mod_multiples_basic(p / s, s);
    assert(p - p % s == (p / s) * s) by (nonlinear_arith) requires p == s * (p / s) + p % s;
}

//@item smdiff-encoder/src/src_matcher.rs const DEFAULT_SRC_WIN_SIZE
const DEFAULT_SRC_WIN_SIZE: usize = 1 << 26;
//@end
//@item smdiff-encoder/src/src_matcher.rs const MIN_SRC_WIN_SIZE
const MIN_SRC_WIN_SIZE: usize = 1 << 20;
//@end

//@item smdiff-encoder/src/src_matcher.rs fn align
fn align(pos:usize,l_step:usize)->/*+*/ (r: /*-*/ usize /*+*/)
    requires l_step > 0
    ensures r <= pos, r % l_step == 0, pos - l_step < r
/*-*/ {
    /*+*/ proof { lemma_mod_align(pos as int, l_step as int); } /*-*/
    pos - (pos % l_step)
}
//@end

proof fn lemma_scaled(c: int, s: int, t: int)
    requires 0 <= c <= t, t > 0, 0 <= s < max_file(), t < max_file()
    ensures 0 <= c * s <= usize::MAX, 0 <= (c * s) / t <= s
{
    assert(c * s <= t * s) by (nonlinear_arith) requires c <= t, 0 <= s;
    assert(t * s <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= t <= 0xffff_ffff, 0 <= s <= 0xffff_ffff;
    assert(c * s >= 0) by (nonlinear_arith) requires 0 <= c, 0 <= s;
    assert((c * s) / t <= s && (c * s) / t >= 0) by (nonlinear_arith) requires 0 <= c * s <= t * s, t > 0;
}

//@item smdiff-encoder/src/src_matcher.rs fn calculate_window_range
fn calculate_window_range(
    cur_o_pos: usize,
    src_len: usize,
    trgt_len: usize,
    half_win_size: usize,
    max_end_pos: usize,
    cur_window_end: usize,
    l_step: usize,
    max_match_end:usize,
) -> /*+*/ (r: /*-*/ Option<std::ops::Range<usize>> /*+*/)
    requires cur_o_pos <= trgt_len, 0 < trgt_len < max_file(), src_len < max_file(), l_step > 0, half_win_size <= 0x2000_0000_0000_0000
    ensures r matches Some(g) ==> g.start <= g.end <= max_end_pos && g.start % l_step == 0
/*-*/ {
    /*+*/ proof { lemma_scaled(cur_o_pos as int, src_len as int, trgt_len as int);
        assert(half_win_size << 1 == 2 * half_win_size) by (bit_vector) requires half_win_size <= 0x2000_0000_0000_0000; } /*-*/
    //min and max cases
    if cur_o_pos < half_win_size {
        return Some(0..(half_win_size<<1).min(max_end_pos));
    }else if cur_window_end >= max_end_pos{
        return None;
    }
    let scaled_src_pos = cur_o_pos * src_len / trgt_len;

    //We add our half window to the equivalent position.
    let scaled_end = align((scaled_src_pos + half_win_size).min(max_end_pos),l_step);
    if scaled_end <= cur_window_end || scaled_end <= max_match_end {//nothing more to hash yet
        return None;
    }
    let max_diff_start = scaled_end.saturating_sub(half_win_size<<1);
    let scaled_start = align(cur_window_end.max(max_match_end).max(max_diff_start),l_step);
    Some(scaled_start..scaled_end)
}
//@end

//@item smdiff-encoder/src/src_matcher.rs fn extend_src_match
fn extend_src_match(src:&[u8],src_start:usize,trgt:&[u8],trgt_start:usize)->/*+*/ (r: /*-*/ Option<(usize,usize)> /*+*/)
    requires src_start + 9 <= src@.len(), trgt_start + 9 <= trgt@.len()
    ensures
        r is Some == same_at(src@, src_start as int, trgt@, trgt_start as int, 9),
        r matches Some(m) ==> {
            &&& m.0 < src_start || m.0 == 0
            &&& m.0 < trgt_start || m.0 == 0
            &&& same_at(src@, src_start - m.0, trgt@, trgt_start - m.0, m.0 + 9 + m.1)
        },
/*-*/ {
    /*+*/ assert(src.len() == src@.len() && trgt.len() == trgt@.len()); /*-*/
    //first verify hash matches the data
    let initial_match = { let mut vp_all = true; for (a,b) in /*+*/ it: /*-*/ src[src_start..src_start + 9]
        .iter().zip(trgt[trgt_start..trgt_start + 9].iter())
        /*+*/ invariant_except_break
            vp_all, 
        invariant
            src_start + 9 <= src@.len(), trgt_start + 9 <= trgt@.len(), it.seq().len() == 9,
            forall|k: int| 0 <= k < 9 ==> *(#[trigger] it.seq()[k]).0 == src@[src_start + k] && *it.seq()[k].1 == trgt@[trgt_start + k],
            vp_all ==> forall|k: int| 0 <= k < it.index@ ==> #[trigger] src@[src_start + k] == trgt@[trgt_start + k],
        ensures vp_all == same_at(src@, src_start as int, trgt@, trgt_start as int, 9), /*-*/
        { if !(a == b) { vp_all = false; /*+*/ proof { assert(src@[src_start + it.index@] != trgt@[trgt_start + it.index@]); } /*-*/ break; } } vp_all };
    if !initial_match{
        return None;
    }
    // Extend backward
    let min_offset = src_start.min(trgt_start);
    let pre_match = if min_offset > 1 {
        { let mut vp_c: usize = 0; for i in /*+*/ it: /*-*/ (1..min_offset)
            /*+*/ invariant_except_break
                vp_c == it.index@,
                forall|k: int| 1 <= k <= it.index@ ==> #[trigger] src@[src_start - k] == trgt@[trgt_start - k],
            invariant
                it.seq().len() == min_offset - 1, min_offset <= src_start < src@.len(), min_offset <= trgt_start < trgt@.len(),
            ensures vp_c < min_offset, forall|k: int| 1 <= k <= vp_c ==> #[trigger] src@[src_start - k] == trgt@[trgt_start - k], /*-*/
        { if !({
            src[src_start - i] == trgt[trgt_start - i]
        }) { break; } vp_c += 1; } vp_c }
    }else{0};

    // Extend forward
    let src_end = src_start + 9;
    let trgt_end = trgt_start + 9;
    let src_remain = src.len() - src_end;
    let trgt_remain = trgt.len() - trgt_end;
    let post_match = { let mut vp_c: usize = 0; for i in /*+*/ it: /*-*/ (0..src_remain.min(trgt_remain))
        /*+*/ invariant_except_break
            vp_c == it.index@,
            forall|k: int| 0 <= k < it.index@ ==> #[trigger] src@[src_end + k] == trgt@[trgt_end + k],
        invariant
            src.len() == src@.len() && trgt.len() == trgt@.len(), src_end == src_start + 9, trgt_end == trgt_start + 9, src_remain == src@.len() - src_end, trgt_remain == trgt@.len() - trgt_end, it.seq().len() <= src_remain, it.seq().len() <= trgt_remain,
        ensures vp_c <= src_remain, vp_c <= trgt_remain, forall|k: int| 0 <= k < vp_c ==> #[trigger] src@[src_end + k] == trgt@[trgt_end + k], /*-*/
        { if !({
        src[src_end + i] == trgt[trgt_end + i]
    }) { break; } vp_c += 1; } vp_c };
    /*+*/ proof {
        let n = pre_match + 9 + post_match;
        assert forall|k: int| 0 <= k < n implies #[trigger] src@[src_start - pre_match + k] == trgt@[trgt_start - pre_match + k] by {
            if k < pre_match { let q = pre_match - k; assert(src@[src_start - q] == trgt@[trgt_start - q]); }
            else if k < pre_match + 9 { let q = k - pre_match; assert(src@[src_start + q] == trgt@[trgt_start + q]); }
            else { let q = k - pre_match - 9; assert(src@[src_end + q] == trgt@[trgt_end + q]); }
        }
    } /*-*/
    Some((pre_match,post_match))
}
//@end

//@item smdiff-encoder/src/src_matcher.rs struct InnerConfig
struct InnerConfig{
    l_step:usize,
    src_len:usize,
    trgt_len:usize,
    src_win_size:usize,
    max_end_pos:usize,
}
//@end
//@item smdiff-encoder/src/src_matcher.rs struct SrcMatcher
struct SrcMatcher{
    l_step:usize,
    fwd_hash: usize,
    fwd_pos: usize,
    max_fwd_hash_pos:usize,
    table: BasicHashTable,
    src_len:usize,
    trgt_len:usize,
    half_win_size:usize,
    max_end_pos:usize,
    cur_window_end:usize,
    next_hash_pos:usize,
    max_match_pos:usize,
}
//@end
pub open spec fn less9(n: int) -> int { if n >= 9 { n - 9 } else { 0 } }
/// the window of nine bytes at p
pub open spec fn window(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(p, p + 9) }
/// the direct checksum of the window at p
pub open spec fn hash_at(d: Seq<u8>, p: int) -> usize { large(window(d, p)) as usize }
/// an entry of the table: a position of the source, in steps, and the checksum of the window there
pub open spec fn entry_ok(b: BucketValue, l_step: int, src: Seq<u8>) -> bool {
    held(b) matches Some(e) ==> e.1 * l_step + 9 <= src.len() && e.0 == hash_at(src, e.1 * l_step)
}
impl SrcMatcher {
    pub open spec fn wf(&self, src: Seq<u8>, trgt: Seq<u8>) -> bool {
        &&& self.table.wf(false) && self.l_step >= 1
        &&& self.src_len == src.len() < max_file() && 0 < self.trgt_len == trgt.len() < max_file()
        &&& self.half_win_size <= 0x2000_0000_0000_0000
        &&& self.max_fwd_hash_pos == less9(trgt.len() as int)
        &&& self.max_end_pos <= less9(src.len() as int)
        &&& forall|i: int| 0 <= i < self.table.buckets@.len() ==> entry_ok(#[trigger] self.table.buckets@[i], self.l_step as int, src)
    }
    /// all but the table and what controls its filling
    pub open spec fn like(&self, o: &Self) -> bool { self.fwd_hash == o.fwd_hash && self.fwd_pos == o.fwd_pos && self.max_fwd_hash_pos == o.max_fwd_hash_pos }
}

impl SrcMatcher {
//@item smdiff-encoder/src/src_matcher.rs impl SrcMatcher / fn table_to_abs_pos
    fn table_to_abs_pos(&self, table_pos:usize)->/*+*/ (r: /*-*/ usize /*+*/)
        requires table_pos * self.l_step <= usize::MAX
        ensures r == table_pos * self.l_step
    /*-*/{
        table_pos * self.l_step
    }
//@end
//@item smdiff-encoder/src/src_matcher.rs impl SrcMatcher / fn abs_to_table_pos
    fn abs_to_table_pos(&self, abs_pos:usize)->/*+*/ (r: /*-*/ usize /*+*/)
        requires self.l_step > 0, abs_pos % self.l_step == 0
        ensures r * self.l_step == abs_pos, r <= abs_pos
    /*-*/{
        debug_assert!(abs_pos % self.l_step == 0, "abs_pos({}) is !divisible by l_step({})",abs_pos,self.l_step);
        /*+*/ proof {
            let (a, l) = (abs_pos as int, self.l_step as int);
            lemma_fundamental_div_mod(a, l);
            assert((a / l) * l == l * (a / l)) by (nonlinear_arith);
            assert(a / l <= a) by (nonlinear_arith) requires l >= 1, a == l * (a / l), a >= 0;
        } /*-*/
        abs_pos / self.l_step
    }
//@end
//@item smdiff-encoder/src/src_matcher.rs impl SrcMatcher / fn store
    fn store(&mut self, hash:usize, abs_pos:usize)
        /*+*/ requires old(self).table.wf(false), old(self).l_step > 0, abs_pos % old(self).l_step == 0, abs_pos < usize::MAX
        ensures
            *final(self) == (SrcMatcher { table: final(self).table, ..*old(self) }),
            forall|src: Seq<u8>, trgt: Seq<u8>| #[trigger] old(self).wf(src, trgt) && abs_pos + 9 <= src.len() && hash == hash_at(src, abs_pos as int) ==> final(self).wf(src, trgt) /*-*/
    {
        debug_assert!(abs_pos % self.l_step == 0);
        /*+*/ assert(self.table.wf(false) && fits(hash, false)); let ghost s0 = *self; /*-*/
        let table_pos = self.abs_to_table_pos(abs_pos);
        match self.table.insert(hash, table_pos){
            Ok(None) => {},
            Ok(Some(_prev)) => {
                //self.chain.insert(hash, table_pos, prev);
            },
            Err((_old_hash,_prev_pos)) => {
                //self.chain.insert(old_hash, table_pos, prev_pos);
            }
        }
        /*+*/ proof {
            assert forall|src: Seq<u8>, trgt: Seq<u8>| #[trigger] s0.wf(src, trgt) && abs_pos + 9 <= src.len() && hash == hash_at(src, abs_pos as int) implies self.wf(src, trgt) by {
                assert forall|i: int| 0 <= i < self.table.buckets@.len() implies entry_ok(#[trigger] self.table.buckets@[i], self.l_step as int, src) by {
                    if held(self.table.buckets@[i]) != Some((hash, table_pos)) { assert(self.table.buckets@[i] == s0.table.buckets@[i]); }
                }
            }
        } /*-*/
    }
//@end
//@item smdiff-encoder/src/src_matcher.rs impl SrcMatcher / fn find_best_src_match
    fn find_best_src_match(&mut self,src:&[u8],trgt:&[u8])->/*+*/ (r: /*-*/Option<(usize,usize,usize)>/*+*/)
        requires old(self).wf(src@, trgt@), old(self).fwd_pos + 9 <= trgt@.len()
        ensures *final(self) == *old(self),
            r matches Some(m) ==> {
                &&& m.1 < m.0 || m.1 == 0
                &&& m.1 < old(self).fwd_pos || m.1 == 0
                &&& m.2 >= 9 && same_at(src@, m.0 - m.1, trgt@, old(self).fwd_pos - m.1, m.1 + m.2)
                &&& old(self).fwd_hash == hash_at(src@, m.0 as int)
            },
    /*-*/{
        /*+*/ proof { assert(self.table.wf(false) && fits(self.fwd_hash, false)); let b = choose|b: usize| #[trigger] self.table.made(b, false); lemma_slot(self.fwd_hash, b, false); } /*-*/
        let table_pos = self.table.get(self.fwd_hash)?;
        /*+*/ proof { assert(entry_ok(self.table.buckets@[slot(self.fwd_hash, self.table.shift_amount, self.table.mod_mask) as int], self.l_step as int, src@)); } /*-*/
        let src_pos = self.table_to_abs_pos(table_pos);
        if let Some((pre_match,post_match)) = extend_src_match(src, src_pos, trgt, self.fwd_pos) {
            let total_post_match = post_match + 9;
            return Some((src_pos,pre_match,total_post_match));
        }
        None
    }
//@end
}

proof fn lemma_first9(d: Seq<u8>)
    requires d.len() >= 9
    ensures large(d) == large(d.take(9))
{
    assert forall|i: int| 0 <= i < 9 implies d[i] == d.take(9)[i] by { }
    lemma_psum_ext(d, d.take(9), wide(POWERS@), 9);
}
pub proof fn lemma_large_range(d: Seq<u8>)
    ensures 0 <= large(d) <= usize::MAX
{ lemma_mod_bound(psum(d, wide(POWERS@), shorter(d.len() as int, 9)), n64()); }
proof fn lemma_step(start: int, end: int, s: int, n: int)
    requires s > 0, start % s == 0, start < end, 0 <= n <= (end - start - 1) / s, 0 <= start
    ensures (start + n * s) % s == 0, start + n * s < end, n * s >= 0
{
    lemma_fundamental_div_mod(end - start - 1, s);
    lemma_mod_bound(end - start - 1, s);
    assert(n * s <= ((end - start - 1) / s) * s) by (nonlinear_arith) requires n <= (end - start - 1) / s, s > 0;
    assert(((end - start - 1) / s) * s == s * ((end - start - 1) / s)) by (nonlinear_arith);
    assert(n * s >= 0) by (nonlinear_arith) requires n >= 0, s > 0;
    lemma_mod_multiples_vanish(n, start, s);
    assert(s * n + start == start + n * s) by (nonlinear_arith);
}

//@item smdiff-encoder/src/src_matcher.rs fn add_start_positions_to_matcher
fn add_start_positions_to_matcher(matcher: &mut SrcMatcher, cur_o_pos: usize, src: &[u8])
    /*+*/ requires exists|trgt: Seq<u8>| #[trigger] old(matcher).wf(src@, trgt) && cur_o_pos <= trgt.len()
    ensures forall|trgt: Seq<u8>| #[trigger] old(matcher).wf(src@, trgt) ==> final(matcher).wf(src@, trgt),
        final(matcher).like(old(matcher)) /*-*/
{
    if cur_o_pos < matcher.next_hash_pos{
        return;
    }
    /*+*/ let ghost t = choose|trgt: Seq<u8>| #[trigger] old(matcher).wf(src@, trgt) && cur_o_pos <= trgt.len(); let ghost m0 = *matcher;
    assert(src.len() == src@.len()); /*-*/
    if let Some(range) = calculate_window_range(cur_o_pos, matcher.src_len, matcher.trgt_len, matcher.half_win_size, matcher.max_end_pos, matcher.cur_window_end, matcher.l_step,matcher.max_match_pos) {
        debug_assert!(range.start % matcher.l_step == 0, "range.start({}) must be divisible by l_step({})",range.start,matcher.l_step);
        if range.end >= matcher.max_end_pos{
            matcher.next_hash_pos = usize::MAX;
        }else{
            matcher.next_hash_pos = cur_o_pos + (matcher.half_win_size);
        }
        /*+*/ let ghost (r0, r1) = (range.start, range.end); proof { assert(matcher.wf(src@, t)); } /*-*/

        if matcher.l_step >= 9 {
            { let vp_r = range; let vp_s = matcher.l_step; vp_assert ( vp_s != 0 ) ; let mut vp_n : usize = if vp_r . start < vp_r . end { ( vp_r . end - vp_r . start - 1 ) / vp_s + 1 } else { 0 } ; 
            /*+*/ proof { if r0 < r1 { assert((r1 - r0 - 1) / (vp_s as int) <= r1 - r0 - 1) by (nonlinear_arith) requires vp_s >= 1, r0 < r1; assert((r1 - r0 - 1) / (vp_s as int) >= 0) by (nonlinear_arith) requires vp_s >= 1, r0 < r1; } } /*-*/
            while vp_n > 0 
                /*+*/ invariant
                    matcher.wf(src@, t), src.len() == src@.len(), vp_s == matcher.l_step >= 1, vp_r.start == r0, vp_r.end == r1, vp_n > 0 ==> r0 < r1 && vp_n - 1 <= (r1 - r0 - 1) / vp_s as int, r0 % vp_s == 0, r1 <= less9(src@.len() as int),
                    matcher.like(&m0), forall|trgt: Seq<u8>| #[trigger] m0.wf(src@, trgt) ==> matcher.wf(src@, trgt),
                decreases vp_n, /*-*/
            { vp_n -= 1 ; 
                /*+*/ proof { lemma_step(r0 as int, r1 as int, vp_s as int, vp_n as int); } /*-*/
                let pos = vp_r . start + vp_n * vp_s ;
                /*+*/ proof { lemma_large_range(window(src@, pos as int)); } let ghost m1 = *matcher; /*-*/
                let hash = calculate_large_checksum(&src[pos..pos + 9]);
                matcher.store(hash, pos)
                /*+*/ ; proof { assert(m1.wf(src@, t)); assert forall|trgt: Seq<u8>| #[trigger] m0.wf(src@, trgt) implies matcher.wf(src@, trgt) by { assert(m1.wf(src@, trgt)); } } /*-*/
            }
            }
        }else{
            let aligned_last_hash = align(range.end.saturating_sub(9),matcher.l_step);
            let mut hash = calculate_large_checksum(&src[aligned_last_hash..range.end]);
            /*+*/ let ghost alh = aligned_last_hash; proof { if alh > 0 { let d = src@.subrange(alh as int, r1 as int); lemma_first9(d); assert(d.take(9) =~= window(src@, alh as int)); lemma_large_range(d); } } /*-*/
            for pos in /*+*/ it: /*-*/ (range.start..aligned_last_hash).rev()
                /*+*/ invariant
                    matcher.wf(src@, t), src.len() == src@.len(), alh == aligned_last_hash, r0 <= alh ==> it.seq().len() == alh - r0, r0 > alh ==> it.seq().len() == 0, forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == alh - 1 - k,
                    alh <= r1 <= less9(src@.len() as int),
                    alh > 0 ==> hash == hash_at(src@, alh - it.index@),
                    matcher.like(&m0), forall|trgt: Seq<u8>| #[trigger] m0.wf(src@, trgt) ==> matcher.wf(src@, trgt), /*-*/
            {
                /*+*/ let ghost m1 = *matcher; proof {
                    let d = src@.subrange(pos as int, pos + 10);
                    assert(d.skip(1) =~= window(src@, pos + 1)); assert(d.take(9) =~= window(src@, pos as int));
                    lemma_large_range(d.skip(1)); lemma_large_range(d.take(9));
                } /*-*/
                hash = update_large_checksum_bwd(hash, src[pos+9], src[pos]);
                if pos % matcher.l_step == 0 {
                    matcher.store(hash, pos);
                    /*+*/ proof { assert(m1.wf(src@, t)); assert forall|trgt: Seq<u8>| #[trigger] m0.wf(src@, trgt) implies matcher.wf(src@, trgt) by { assert(m1.wf(src@, trgt)); } } /*-*/
                }
            }
        }
    }
}
//@end

/// the options of the source matcher the encoder is claimed for
pub open spec fn src_config_ok(c: SrcMatcherConfig) -> bool { c.max_src_win_size matches Some(s) ==> s <= 0x2000_0000_0000_0000 }
impl SrcMatcherConfig {
//@item smdiff-encoder/src/src_matcher.rs impl SrcMatcherConfig / fn make_inner_config
    fn make_inner_config(&mut self, src_len: usize,trgt_len:usize)->/*+*/ (r: /*-*/ InnerConfig /*+*/)
        requires src_config_ok(*old(self))
        ensures r.l_step >= 1, r.src_len == src_len, r.trgt_len == trgt_len, r.src_win_size <= 0x4000_0000_0000_0000, r.max_end_pos <= less9(src_len as int)
    /*-*/{
        /*+*/ assert(1usize << 20 == 0x10_0000 && 1usize << 26 == 0x400_0000) by (bit_vector); /*-*/
        self.l_step = self.l_step.max(1);

        self.max_src_win_size = Some(self
            .max_src_win_size
            .map(|s /*+*/: usize /*-*/| /*+*/ -> (z: usize) requires s <= 0x2000_0000_0000_0000 ensures z <= 0x4000_0000_0000_0000 { /*-*/ s.next_power_of_two().max(MIN_SRC_WIN_SIZE) /*+*/ } /*-*/)
            .unwrap_or(
                DEFAULT_SRC_WIN_SIZE
            ));
        InnerConfig{
            l_step:self.l_step,
            src_len,
            trgt_len,
            src_win_size:self.max_src_win_size.unwrap(),
            max_end_pos:align(src_len.saturating_sub(9),self.l_step),
        }
    }
//@end
//@item smdiff-encoder/src/src_matcher.rs impl SrcMatcherConfig / fn build
    fn build(&mut self,src:&[u8],trgt_start_pos:usize,trgt:&[u8])->/*+*/ (r: /*-*/SrcMatcher/*+*/)
        requires src_config_ok(*old(self)), src@.len() < max_file(), trgt_start_pos <= trgt@.len(), 0 < trgt@.len() < max_file()
        ensures r.wf(src@, trgt@), 
            trgt_start_pos + 9 <= trgt@.len() ==> r.fwd_pos == trgt_start_pos && r.fwd_hash == hash_at(trgt@, trgt_start_pos as int),
            trgt_start_pos + 9 > trgt@.len() ==> r.fwd_pos == r.max_fwd_hash_pos,
    /*-*/{
        /*+*/ assert(src.len() == src@.len() && trgt.len() == trgt@.len()); proof { lemma_large_range(window(trgt@, trgt_start_pos as int)); } /*-*/
        let trgt_len = trgt.len();
        let InnerConfig { l_step, src_len, trgt_len, src_win_size, max_end_pos } = self.make_inner_config(src.len(),trgt_len);
        let max_fwd_hash_pos = trgt.len().saturating_sub(9);
        let (fwd_hash,fwd_pos) = if trgt_start_pos + 9 <= trgt_len {
            (calculate_large_checksum(&trgt[trgt_start_pos..trgt_start_pos+9]),trgt_start_pos)
        }else{
            (0,max_fwd_hash_pos)
        };
        /*+*/ proof {
            assert forall|z: usize| #[trigger] (z >> 1) == z / 2 by { assert(z >> 1 == z / 2) by (bit_vector); }
            assert forall|z: usize| z <= 0x4000_0000_0000_0000 implies #[trigger] (z / l_step) <= z by { assert((z as int) / (l_step as int) <= z) by (nonlinear_arith) requires l_step >= 1, z >= 0; }
        } /*-*/
        //regardless of win_size given, we do not need to store more than the entire src file.
        let table_win_effective = (src_len.next_power_of_two() >> 1).min(src_win_size);
        let table = BasicHashTable::new(table_win_effective/l_step, false);
        let mut matcher = SrcMatcher{
            table, src_len, trgt_len, max_end_pos,max_fwd_hash_pos,
            fwd_hash,
            fwd_pos,
            l_step,
            half_win_size: src_win_size>>1,
            cur_window_end: 0,
            next_hash_pos: 0,
            max_match_pos: trgt_start_pos
        };
        /*+*/ proof { assert(matcher.wf(src@, trgt@)); } /*-*/
        //prefill with hash start positions.
        add_start_positions_to_matcher(&mut matcher, trgt_start_pos, src);
        matcher
    }
//@end
}

}
}
