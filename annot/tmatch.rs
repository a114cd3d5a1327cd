// Matches in the part of the target already written (C01, C02, C14, C15).
pub mod trgt_matcher {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::io::*;
use crate::hasher::*;
use crate::hashmap::*;
use crate::ranger::*;
use crate::src_matcher::{same_at, max_file};
verus! {

/// the size of targets the encoder is claimed for
pub open spec fn max_trgt() -> int { 0x8000_0000 }
pub open spec fn less4(n: int) -> int { if n >= 4 { n - 4 } else { 0 } }
/// the direct checksum of the window of four bytes at p
pub open spec fn small_at(d: Seq<u8>, p: int) -> u32 { small(d.subrange(p, p + 4)) as u32 }
/// an entry of the table: a position up to n and the checksum of the window there
pub open spec fn spot_ok(b: BucketValue, trgt: Seq<u8>, n: int) -> bool {
    held(b) matches Some(e) ==> e.1 <= n && (e.1 + 4 <= trgt.len() ==> e.0 == small_at(trgt, e.1 as int))
}
proof fn lemma_first4(d: Seq<u8>)
    requires d.len() >= 4
    ensures small(d) == small(d.take(4))
{
    assert forall|i: int| 0 <= i < 4 implies d[i] == d.take(4)[i] by { }
    lemma_psum_ext(d, d.take(4), wide32(SMALL_POWERS@), 4);
}
pub proof fn lemma_small_range(d: Seq<u8>)
    ensures 0 <= small(d) <= u32::MAX
{ lemma_mod_bound(psum(d, wide32(SMALL_POWERS@), shorter(d.len() as int, 4)), n32()); }
pub proof fn lemma_small_tail(d: Seq<u8>, p: int)
    requires 0 <= p, p + 4 <= d.len()
    ensures small(d.skip(p)) == small_at(d, p), small(d.subrange(p, d.len() as int)) == small_at(d, p), small(d.subrange(p, p + 4)) == small_at(d, p)
{
    lemma_first4(d.skip(p)); lemma_small_range(d.subrange(p, p + 4));
    assert(d.skip(p).take(4) =~= d.subrange(p, p + 4));
    assert(d.skip(p) =~= d.subrange(p, d.len() as int));
}

//@item smdiff-encoder/src/trgt_matcher.rs struct TrgtMatcher
struct TrgtMatcher{
    compress_early_exit:usize,
    chain_check: usize,
    fwd_hash: u32,
    fwd_pos: usize,
    max_fwd_hash_pos: usize,
    table: BasicHashTable,
    chain: ChainList,
}
//@end
impl TrgtMatcher {
    /// well formed, and no position after n is in the table
    pub open spec fn wf(&self, trgt: Seq<u8>, n: int) -> bool {
        &&& self.table.wf(true) && self.chain.wf()
        &&& 0 < trgt.len() < max_trgt()
        &&& n <= trgt.len()
        &&& self.max_fwd_hash_pos == less4(trgt.len() as int)
        &&& forall|i: int| 0 <= i < self.table.buckets@.len() ==> spot_ok(#[trigger] self.table.buckets@[i], trgt, n)
    }
    pub open spec fn like(&self, o: &Self) -> bool { self.fwd_hash == o.fwd_hash && self.fwd_pos == o.fwd_pos && self.max_fwd_hash_pos == o.max_fwd_hash_pos }
}
pub proof fn lemma_later(m: TrgtMatcher, trgt: Seq<u8>, n: int, k: int)
    requires m.wf(trgt, n), n <= k <= trgt.len()
    ensures m.wf(trgt, k)
{ assert forall|i: int| 0 <= i < m.table.buckets@.len() implies spot_ok(#[trigger] m.table.buckets@[i], trgt, k) by { assert(spot_ok(m.table.buckets@[i], trgt, n)); } }

impl TrgtMatcher {
//@item smdiff-encoder/src/trgt_matcher.rs impl TrgtMatcher / fn find_best_trgt_match
    fn find_best_trgt_match(&self,trgt:&[u8],min_match:usize)->/*+*/ (r: /*-*/Option<(usize,usize)>/*+*/)
        requires self.wf(trgt@, self.fwd_pos as int), self.fwd_pos + 4 <= trgt@.len()
        ensures r matches Some(m) ==> m.1 >= 4 && m.0 + m.1 <= self.fwd_pos && same_at(trgt@, m.0 as int, trgt@, self.fwd_pos as int, m.1 as int)
    /*-*/{
        /*+*/ assert(trgt.len() == trgt@.len()); /*-*/
        let cur_hash = self.fwd_hash as usize;
        /*+*/ proof { assert(self.table.wf(true) && fits(cur_hash, true)); let b = choose|b: usize| #[trigger] self.table.made(b, true); lemma_slot(cur_hash, b, true);
            assert(spot_ok(self.table.buckets@[slot(cur_hash, self.table.shift_amount, self.table.mod_mask) as int], trgt@, self.fwd_pos as int)); } /*-*/
        let table_pos = self.table.get(cur_hash)?;
        let mut vp_first = Some(table_pos); let mut vp_rest = self.chain.iter_prev_starts(table_pos, self.fwd_pos,cur_hash);
        let mut chain = if min_match > 4 {(self.chain_check/4).max(1)} else {self.chain_check};
        let mut best /*+*/ : Option<(usize, usize)> /*-*/ = None;
        let mut best_len /*+*/ : usize /*-*/ = 0;
        let mut _chain_len /*+*/ : i32 /*-*/ = 0;
        let mut _collisions /*+*/ : i32 /*-*/ = 0;
        loop
            /*+*/ invariant_except_break
                vp_first is Some ==> vp_first == Some(table_pos) && vp_rest.at_pos() == table_pos,
                vp_rest.at_pos() <= self.fwd_pos,
                0 <= _collisions <= _chain_len, _chain_len + vp_rest.at_pos() + (if vp_first is Some { 1int } else { 0 }) <= self.fwd_pos + 1,
            invariant
                trgt.len() == trgt@.len(), self.wf(trgt@, self.fwd_pos as int), self.fwd_pos + 4 <= trgt@.len(), table_pos <= self.fwd_pos,
                best matches Some(m) ==> m.1 >= 4 && m.0 + m.1 <= self.fwd_pos && same_at(trgt@, m.0 as int, trgt@, self.fwd_pos as int, m.1 as int),
            decreases vp_rest.at_pos() + (if vp_first is Some { 1int } else { 0 }), /*-*/
        {
            if chain == 0{
                break;
            }
            /*+*/ let ghost before = vp_rest.at_pos() + (if vp_first is Some { 1int } else { 0 }); /*-*/
            if let Some(start_pos) = { let mut vp_r /*+*/ : Option<usize> /*-*/ = None ; loop
                /*+*/ invariant_except_break
                    vp_r is None,
                    vp_rest.at_pos() + (if vp_first is Some { 1int } else { 0 }) <= before,
                    vp_first is Some ==> vp_first == Some(table_pos) && vp_rest.at_pos() == table_pos,
                    vp_rest.at_pos() <= self.fwd_pos,
                invariant
                    table_pos <= self.fwd_pos < trgt@.len() < max_trgt(),
                ensures
                    vp_r matches Some(x) ==> vp_first is None && vp_rest.at_pos() <= self.fwd_pos && x + 4 < self.fwd_pos && vp_rest.at_pos() + (if vp_first is Some { 1int } else { 0 }) < before,
                decreases vp_rest.at_pos() + (if vp_first is Some { 1int } else { 0 }), /*-*/
                { let vp_s = match vp_first . take ( ) { Some ( vp_x ) => Some ( vp_x ) , None => vp_rest . next ( ) } ; match vp_s { Some ( vp_x ) => { if { let start = & vp_x ; start + 4 < self.fwd_pos } { vp_r = Some ( vp_x ) ; break ; } } , None => { break ; } } } vp_r } {
                _chain_len += 1;
                //first verify hash matches the data
                let initial_match = { let mut vp_all = true; for (a,b) in /*+*/ it: /*-*/ trgt[start_pos..start_pos + 4]
                .iter().zip(trgt[self.fwd_pos..self.fwd_pos + 4].iter())
                    /*+*/ invariant_except_break
                        vp_all,
                    invariant
                        start_pos + 4 < self.fwd_pos, self.fwd_pos + 4 <= trgt@.len(), it.seq().len() == 4,
                        forall|k: int| 0 <= k < 4 ==> *(#[trigger] it.seq()[k]).0 == trgt@[start_pos + k] && *it.seq()[k].1 == trgt@[self.fwd_pos + k],
                        vp_all ==> forall|k: int| 0 <= k < it.index@ ==> #[trigger] trgt@[start_pos + k] == trgt@[self.fwd_pos + k],
                    ensures vp_all == same_at(trgt@, start_pos as int, trgt@, self.fwd_pos as int, 4), /*-*/
                { if !(a == b) { vp_all = false; /*+*/ proof { assert(trgt@[start_pos + it.index@] != trgt@[self.fwd_pos + it.index@]); } /*-*/ break; } } vp_all };
                if !initial_match{
                    _collisions += 1;
                    continue;
                }

                // Extend forward
                let match_end = start_pos + 4;
                let trgt_end = self.fwd_pos + 4;
                let src_remain = self.fwd_pos - match_end;
                let trgt_remain = trgt.len() - trgt_end;
                let post_match = { let mut vp_c: usize = 0; for i in /*+*/ it: /*-*/ (0..src_remain.min(trgt_remain))
                    /*+*/ invariant_except_break
                        vp_c == it.index@,
                        forall|k: int| 0 <= k < it.index@ ==> #[trigger] trgt@[match_end + k] == trgt@[trgt_end + k],
                    invariant
                        trgt.len() == trgt@.len(), match_end < trgt_end == self.fwd_pos + 4, src_remain == self.fwd_pos - match_end, trgt_remain == trgt@.len() - trgt_end, it.seq().len() <= src_remain, it.seq().len() <= trgt_remain,
                    ensures vp_c <= src_remain, vp_c <= trgt_remain, forall|k: int| 0 <= k < vp_c ==> #[trigger] trgt@[match_end + k] == trgt@[trgt_end + k], /*-*/
                { if !({
                    trgt[match_end + i] == trgt[trgt_end + i]
                }) { break; } vp_c += 1; } vp_c };
                let total_post_match = post_match + 4;
                /*+*/ proof {
                    assert forall|k: int| 0 <= k < total_post_match implies #[trigger] trgt@[start_pos + k] == trgt@[self.fwd_pos + k] by {
                        if k >= 4 { let q = k - 4; assert(trgt@[match_end + q] == trgt@[trgt_end + q]); }
                    }
                } /*-*/
                if total_post_match > best_len{
                    best_len = total_post_match;
                    best = Some((start_pos,total_post_match));
                    if best_len >= self.compress_early_exit{
                        break;
                    }
                }
                chain -= 1;
            }else{break;}

        }
        best
    }
//@end
//@item smdiff-encoder/src/trgt_matcher.rs impl TrgtMatcher / fn store
    fn store(&mut self, hash:usize, pos:usize)
        /*+*/ requires old(self).table.wf(true), old(self).chain.wf(), fits(hash, true), pos < usize::MAX
        ensures
            *final(self) == (TrgtMatcher { table: final(self).table, chain: final(self).chain, ..*old(self) }),
            forall|trgt: Seq<u8>, n: int| #[trigger] old(self).wf(trgt, n) && pos <= n && (pos + 4 <= trgt.len() ==> hash == small_at(trgt, pos as int)) ==> final(self).wf(trgt, n) /*-*/
    {
        /*+*/ assert(self.table.wf(true) && fits(hash, true)); let ghost s0 = *self; /*-*/
        match self.table.insert(hash, pos){
            Ok(None) => {},
            Ok(Some(prev)) => {
                self.chain.insert(hash, pos, prev);
            },
            Err((old_hash,prev_pos)) => {
                self.chain.insert(old_hash, pos, prev_pos);
            }
        }
        /*+*/ proof {
            assert forall|trgt: Seq<u8>, n: int| #[trigger] s0.wf(trgt, n) && pos <= n && (pos + 4 <= trgt.len() ==> hash == small_at(trgt, pos as int)) implies self.wf(trgt, n) by {
                assert forall|i: int| 0 <= i < self.table.buckets@.len() implies spot_ok(#[trigger] self.table.buckets@[i], trgt, n) by {
                    if held(self.table.buckets@[i]) != Some((hash, pos)) { assert(self.table.buckets@[i] == s0.table.buckets@[i]); }
                }
            }
        } /*-*/
    }
//@end
}

//@item smdiff-encoder/src/trgt_matcher.rs const DEFAULT_TRGT_WIN_SIZE
const DEFAULT_TRGT_WIN_SIZE: usize = 1 << 23;
//@end
//@item smdiff-encoder/src/trgt_matcher.rs const DEFAULT_PREV_SIZE
const DEFAULT_PREV_SIZE: usize = 1 << 18;
//@end
/// the options of the target matcher the encoder is claimed for
pub open spec fn trgt_config_ok(c: TrgtMatcherConfig) -> bool { c.prev_table_capacity matches Some(s) ==> s == 0 || pow2(s) }

impl TrgtMatcherConfig {
//@item smdiff-encoder/src/trgt_matcher.rs impl TrgtMatcherConfig / fn build
    fn build(&mut self,trgt:&[u8],trgt_start_pos:usize)->/*+*/ (r: /*-*/TrgtMatcher/*+*/)
        requires trgt_config_ok(*old(self)), 0 < trgt@.len() < max_trgt(), trgt_start_pos <= trgt@.len()
        ensures r.wf(trgt@, trgt_start_pos as int), r.fwd_pos == trgt_start_pos, trgt_start_pos + 4 <= trgt@.len() ==> r.fwd_hash == small_at(trgt@, trgt_start_pos as int)
    /*-*/{
        /*+*/ assert(trgt.len() == trgt@.len());
        assert(1usize << 23 == 0x80_0000 && 1usize << 18 == 0x4_0000) by (bit_vector);
        proof {
            assert forall|z: usize| #[trigger] (z >> 1) == z / 2 by { assert(z >> 1 == z / 2) by (bit_vector); }
            assert forall|z: usize| #[trigger] pow2(z) implies z / 2 == 0 || pow2(z / 2) by { if z >= 2 { let h = z / 2; assert(h & sub(h, 1) == 0) by (bit_vector) requires z & sub(z, 1) == 0, h == z / 2, z >= 2; } }
            assert(pow2(0x4_0000)) by { assert(0x4_0000usize & sub(0x4_0000usize, 1) == 0) by (bit_vector); }
            if trgt_start_pos + 4 <= trgt@.len() { lemma_small_tail(trgt@, trgt_start_pos as int); }
        } /*-*/
        let Self { compress_early_exit, chain_check, prev_table_capacity } = self;
        let effective_len = trgt.len() - trgt_start_pos;
        prev_table_capacity.vp_fill(DEFAULT_PREV_SIZE.min(effective_len.next_power_of_two()>>1));
        let table = BasicHashTable::new(DEFAULT_TRGT_WIN_SIZE.min((effective_len + (effective_len/2)).next_power_of_two() >> 1), true);
        let mut matcher = TrgtMatcher{
            compress_early_exit: *compress_early_exit,
            chain_check: *chain_check,
            fwd_hash: calculate_small_checksum(&trgt[trgt_start_pos..]),
            fwd_pos: trgt_start_pos,
            table,
            chain: ChainList::new(self.prev_table_capacity.unwrap()),
            max_fwd_hash_pos: trgt.len().saturating_sub(4)
        };
        /*+*/ proof { assert(matcher.wf(trgt@, trgt_start_pos as int)); } /*-*/
        if trgt_start_pos > 0 { //prefill with hash start positions.
            let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
            //only positions before the start (it will be stored when the encoder moves past it) that have a full window to hash.
            let end = (trgt_start_pos - 1).min(trgt.len().saturating_sub(4));
            let mut hash = calculate_small_checksum(&trgt[start..]);
            /*+*/ proof { if start + 4 <= trgt@.len() { lemma_small_tail(trgt@, start as int); } } /*-*/
            matcher.store(hash as usize, start);
            for old_pos in /*+*/ it: /*-*/ start..end
                /*+*/ invariant
                    matcher.wf(trgt@, trgt_start_pos as int), trgt.len() == trgt@.len(), end < trgt_start_pos <= trgt@.len(), start < end ==> end + 4 <= trgt@.len(),
                    start < end ==> hash == small_at(trgt@, start + it.index@), it.index@ <= it.seq().len(), start < end ==> it.seq().len() == end - start, start >= end ==> it.seq().len() == 0,
                    matcher.fwd_pos == trgt_start_pos, trgt_start_pos + 4 <= trgt@.len() ==> matcher.fwd_hash == small_at(trgt@, trgt_start_pos as int), /*-*/
            {
                /*+*/ proof {
                    let d = trgt@.subrange(old_pos as int, old_pos + 5);
                    assert(d.take(4) =~= trgt@.subrange(old_pos as int, old_pos + 4)); assert(d.skip(1) =~= trgt@.subrange(old_pos + 1, old_pos + 5));
                    lemma_small_range(d.take(4)); lemma_small_range(d.skip(1));
                } let ghost m1 = matcher; proof { assert(m1.wf(trgt@, trgt_start_pos as int)); } /*-*/
                hash = update_small_checksum_fwd(hash, trgt[old_pos], trgt[old_pos + 4]);
                matcher.store(hash as usize, old_pos + 1);
            }
        }
        matcher
    }
//@end
}

}
}
