// The position tables of the matchers (C15).
pub mod hashmap {
use vstd::prelude::*;
use crate::io::*;
verus! {

// integer primitives of core (trusted: their documented meaning)
pub open spec fn pow2(n: usize) -> bool { n != 0 && n & ((n - 1) as usize) == 0 }
pub assume_specification [usize::next_power_of_two] (a: usize) -> (r: usize)
    requires a <= 0x8000_0000_0000_0000
    ensures pow2(r), r >= a, r == 1 || r / 2 < a;
pub assume_specification [usize::trailing_zeros] (a: usize) -> (r: u32)
    ensures pow2(a) ==> r < 64 && a == 1usize << r;

//@item smdiff-encoder/src/hashmap.rs const BUCKET_VALUE_OFFSET
const BUCKET_VALUE_OFFSET: usize = 1;
//@end

//@item smdiff-encoder/src/hashmap.rs struct BucketValue
struct BucketValue{
    hash:usize,
    value:usize,
}
//@end
// the derived implementations
impl Default for BucketValue {
    fn default() -> (r: Self) ensures r.value == 0 && r.hash == 0 { BucketValue { hash: 0, value: 0 } }
}
impl Clone for BucketValue {
    fn clone(&self) -> (r: Self) ensures r == *self { BucketValue { hash: self.hash, value: self.value } }
}
/// what a bucket holds: a position and the hash it was stored for
pub open spec fn held(b: BucketValue) -> Option<(usize, usize)> {
    if b.value == 0 { None } else { Some((b.hash, (b.value - 1) as usize)) }
}

impl BucketValue {
//@item smdiff-encoder/src/hashmap.rs impl BucketValue / fn get_value_unchecked
    fn get_value_unchecked(&self) -> /*+*/ (r: /*-*/ usize /*+*/) requires held(*self) is Some ensures r == held(*self).unwrap().1 /*-*/ {
        self.value - BUCKET_VALUE_OFFSET
    }
//@end
//@item smdiff-encoder/src/hashmap.rs impl BucketValue / fn get
    fn get(&self,hash:usize) -> /*+*/ (r: /*-*/ Option<usize> /*+*/)
        ensures r == (match held(*self) { Some((h, p)) if h == hash => Some(p), _ => None::<usize> })
    /*-*/ {
        if self.value == 0 {
            return None;
        }
        if self.hash == hash {
            Some(self.value - BUCKET_VALUE_OFFSET)
        } else {
            None
        }
    }
//@end
//@item smdiff-encoder/src/hashmap.rs impl BucketValue / fn set
    fn set(&mut self, hash:usize, value: usize) -> /*+*/ (r: /*-*/ Result<Option<usize>,(usize,usize)> /*+*/)
        requires value < usize::MAX
        ensures held(*final(self)) == Some((hash, value)),
            r == (match held(*old(self)) {
                None => Ok::<Option<usize>, (usize, usize)>(None),
                Some((h, p)) => if h == hash { Ok(Some(p)) } else { Err((h, p)) },
            })
    /*-*/ {
        if self.value == 0 {
            self.hash = hash;
            self.value = value + BUCKET_VALUE_OFFSET;
            return Ok(None);
        }

        if self.hash == hash {
            let old = self.value;
            self.value = value + BUCKET_VALUE_OFFSET;
            return Ok(Some(old - BUCKET_VALUE_OFFSET));
        }
        let old = (self.hash, self.value - BUCKET_VALUE_OFFSET);
        self.hash = hash;
        self.value = value + BUCKET_VALUE_OFFSET;
        Err(old)
    }
//@end
}

//@item smdiff-encoder/src/hashmap.rs struct BasicHashTable
struct BasicHashTable {
    shift_amount: usize,     // Bit shift amount for hash reduction
    mod_mask: usize,         // Bitmask for hash table indexing
    buckets: Vec<BucketValue>,     // Power of 2 sized array of positions
}
//@end
/// the slot of a hash
pub open spec fn slot(h: usize, shift: usize, mask: usize) -> usize { (h >> shift) ^ (h & mask) }
pub open spec fn mask_of(bits: usize) -> usize { ((1usize << bits) - 1) as usize }
pub open spec fn width_of(narrow: bool) -> usize { if narrow { 32 } else { 64 } }
/// the hash has the width the table was made for
pub open spec fn fits(h: usize, narrow: bool) -> bool { narrow ==> h <= 0xffff_ffff }
impl BasicHashTable {
    pub open spec fn wf(&self, narrow: bool) -> bool {
        exists|bits: usize| #[trigger] self.made(bits, narrow)
    }
    pub open spec fn made(&self, bits: usize, narrow: bool) -> bool {
        &&& 2 <= bits <= 63 && bits <= width_of(narrow)
        &&& self.shift_amount == width_of(narrow) - bits
        &&& self.mod_mask == mask_of(bits)
        &&& self.buckets@.len() == self.mod_mask + 1
    }
    /// what is held in the slot of a hash
    pub open spec fn at(&self, h: usize) -> Option<(usize, usize)> {
        held(self.buckets@[slot(h, self.shift_amount, self.mod_mask) as int])
    }
    /// the position stored for a hash
    pub open spec fn found(&self, h: usize) -> Option<usize> {
        match self.at(h) { Some((k, p)) if k == h => Some(p), _ => None }
    }
    pub open spec fn same_slot(&self, h: usize, k: usize) -> bool {
        slot(h, self.shift_amount, self.mod_mask) == slot(k, self.shift_amount, self.mod_mask)
    }
    /// other, with the same layout
    pub open spec fn like(&self, o: &Self) -> bool { self.shift_amount == o.shift_amount && self.mod_mask == o.mod_mask && self.buckets@.len() == o.buckets@.len() }
}
/// a slot of a table that is well formed is inside it
pub proof fn lemma_slot(h: usize, bits: usize, narrow: bool)
    requires 2 <= bits <= 63, bits <= width_of(narrow), fits(h, narrow)
    ensures slot(h, (width_of(narrow) - bits) as usize, mask_of(bits)) <= mask_of(bits), mask_of(bits) >= 3, mask_of(bits) < usize::MAX, 4 <= 1usize << bits <= 0x8000_0000_0000_0000
{
    let w = width_of(narrow);
    let s = (w - bits) as usize;
    let u = 1usize << bits;
    assert(4 <= u <= 0x8000_0000_0000_0000) by (bit_vector) requires u == 1usize << bits, 2 <= bits <= 63;
    let m = (u - 1) as usize;
    if narrow {
        assert((h >> s) ^ (h & m) <= m) by (bit_vector)
            requires h <= 0xffff_ffff, 2 <= bits <= 32, s == sub(32, bits), u == 1usize << bits, m == sub(u, 1);
    } else {
        assert((h >> s) ^ (h & m) <= m) by (bit_vector)
            requires 2 <= bits <= 63, s == sub(64, bits), u == 1usize << bits, m == sub(u, 1);
    }
}

impl BasicHashTable{
//@item smdiff-encoder/src/hashmap.rs impl BasicHashTable / fn new
    fn new(min_capacity: usize, interpret_hash_as_32_bit:bool) -> /*+*/ (r: /*-*/ Self /*+*/)
        requires min_capacity < (if interpret_hash_as_32_bit { 0x1_0000_0000usize } else { 0x4000_0000_0000_0000 })
        ensures r.wf(interpret_hash_as_32_bit), forall|i: int| 0 <= i < r.buckets@.len() ==> held(#[trigger] r.buckets@[i]) is None
    /*-*/ {
        // For the capacity given, what power of 2 should we use?
        let num_bits = determine_hash_table_size_bits(min_capacity);
        /*+*/ proof { lemma_slot(0, num_bits, interpret_hash_as_32_bit); } /*-*/
        let table_size = 1 << num_bits;
        // Power of 2 - 1 is the mask for cheap modulo operation
        let mod_mask = table_size - 1;
        let base_shift = if interpret_hash_as_32_bit {4} else {std::mem::size_of::<usize>()};
        let shift_amount = (base_shift * 8) - num_bits;
        let buckets = vec![BucketValue::default(); table_size];
        /*+*/ let r_ = /*-*/
        Self {
            mod_mask,
            shift_amount,
            buckets,
        }
        /*+*/ ; proof { assert(r_.made(num_bits, interpret_hash_as_32_bit)); } r_ /*-*/
    }
//@end
}
impl BasicHashTable {
//@item smdiff-encoder/src/hashmap.rs impl BasicHashTable / fn get
    fn get(&self,hash:usize)->/*+*/ (r: /*-*/Option<usize>/*+*/)
        requires exists|narrow: bool| #[trigger] self.wf(narrow) && fits(hash, narrow)
        ensures r == self.found(hash)
    /*-*/{
        /*+*/ proof { let narrow = choose|narrow: bool| #[trigger] self.wf(narrow) && fits(hash, narrow); let bits = choose|bits: usize| #[trigger] self.made(bits, narrow); lemma_slot(hash, bits, narrow); } /*-*/
        let idx = get_bucket_idx(hash, self.shift_amount, self.mod_mask);
        self.buckets[idx].get(hash)
    }
//@end
//@item smdiff-encoder/src/hashmap.rs impl BasicHashTable / fn insert
    fn insert(&mut self, hash: usize, position: usize) -> /*+*/ (r: /*-*/ Result<Option<usize>,(usize,usize)> /*+*/)
        requires position < usize::MAX, exists|narrow: bool| #[trigger] old(self).wf(narrow) && fits(hash, narrow)
        ensures
            final(self).like(old(self)), forall|narrow: bool| old(self).wf(narrow) ==> #[trigger] final(self).wf(narrow),
            forall|k: usize| #[trigger] final(self).at(k) == (if final(self).same_slot(hash, k) { Some((hash, position)) } else { old(self).at(k) }),
            forall|i: int| 0 <= i < final(self).buckets@.len() ==> held(#[trigger] final(self).buckets@[i]) == Some((hash, position)) || final(self).buckets@[i] == old(self).buckets@[i],
            r == (match old(self).at(hash) {
                None => Ok::<Option<usize>, (usize, usize)>(None),
                Some((h, p)) => if h == hash { Ok(Some(p)) } else { Err((h, p)) },
            })
    /*-*/ {
        /*+*/ proof { let narrow = choose|narrow: bool| #[trigger] self.wf(narrow) && fits(hash, narrow); let bits = choose|bits: usize| #[trigger] self.made(bits, narrow); lemma_slot(hash, bits, narrow); }
        let ghost s0 = *self; let r_ = { /*-*/
        let idx = get_bucket_idx(hash, self.shift_amount, self.mod_mask);
        self.buckets[idx].set(hash, position)
        /*+*/ };
        proof { assert forall|narrow: bool| s0.wf(narrow) implies #[trigger] self.wf(narrow) by { let bits = choose|bits: usize| #[trigger] s0.made(bits, narrow); assert(self.made(bits, narrow)); } }
        r_ /*-*/
    }
//@end
}

//@item smdiff-encoder/src/hashmap.rs fn determine_hash_table_size_bits
fn determine_hash_table_size_bits(slots: usize) -> /*+*/ (r: /*-*/ usize /*+*/)
    requires slots < 0x4000_0000_0000_0000
    ensures 2 <= r <= 62, slots < 0x1_0000_0000 ==> r <= 31
/*-*/ {
    /*+*/ proof {
        assert forall|z: u32| z < 64 implies ((#[trigger] (1usize << z)) / 2 < 0x4000_0000_0000_0000 ==> z <= 62) && ((1usize << z) / 2 < 0x1_0000_0000 ==> z <= 32) by {
            let u = 1usize << z;
            assert((u / 2 < 0x4000_0000_0000_0000 ==> z <= 62) && (u / 2 < 0x1_0000_0000 ==> z <= 32)) by (bit_vector) requires u == 1usize << z, z < 64;
        }
    } /*-*/
    ((slots+1).next_power_of_two().trailing_zeros() as usize)
        .clamp(3, std::mem::size_of::<usize>() * 8) - 1
}
//@end
//@item smdiff-encoder/src/hashmap.rs fn get_bucket_idx
fn get_bucket_idx(checksum: usize, shift_amt:usize, mod_mask:usize) -> /*+*/ (r: /*-*/ usize /*+*/)
    requires shift_amt < 64
    ensures r == slot(checksum, shift_amt, mod_mask)
/*-*/ {
   (checksum >> shift_amt) // move high bits down
    ^ //mix the bits with xor
    (checksum & mod_mask) //ensure the final value is within the table bounds (mod op)
}
//@end

//@item smdiff-encoder/src/hashmap.rs struct ChainList
struct ChainList {
    positions: Vec<BucketValue>, // Storage for previous positions
    mod_mask: usize,       // Mask for modulo operation. Buckets must be a power of 2
}
//@end
impl ChainList {
    pub open spec fn wf(&self) -> bool {
        self.positions@.len() == 0 || (self.positions@.len() <= usize::MAX && pow2(self.positions@.len() as usize) && self.mod_mask == self.positions@.len() - 1)
    }
    /// the entry a position leads to
    pub open spec fn link(&self, pos: usize) -> Option<(usize, usize)> {
        if self.positions@.len() == 0 { None } else { held(self.positions@[(pos & self.mod_mask) as int]) }
    }
    pub open spec fn same_link(&self, a: usize, b: usize) -> bool { a & self.mod_mask == b & self.mod_mask }
}
proof fn lemma_link(c: ChainList, pos: usize)
    requires c.wf(), c.positions@.len() > 0
    ensures (pos & c.mod_mask) < c.positions@.len()
{
    let m = c.mod_mask;
    assert(pos & m <= m) by (bit_vector);
}

impl ChainList {
//@item smdiff-encoder/src/hashmap.rs impl ChainList / fn new
    fn new(capacity: usize) -> /*+*/ (r: /*-*/ Self /*+*/)
        requires capacity == 0 || pow2(capacity)
        ensures r.wf(), r.positions@.len() == capacity, forall|p: usize| #[trigger] r.link(p) is None
    /*-*/ {
        //assert that capacity is a power of 2
        if capacity == 0 {
            return Self {
                positions: Vec::new(),
                mod_mask: 0,
            };
        }
        vp_assert(capacity & (capacity - 1) == 0);
        /*+*/ let r_ = /*-*/
        Self {
            positions: vec![BucketValue::default(); capacity],
            mod_mask: capacity - 1,
        }
        /*+*/ ; proof { assert forall|p: usize| #[trigger] r_.link(p) is None by { lemma_link(r_, p); } } r_ /*-*/
    }
//@end
//@item smdiff-encoder/src/hashmap.rs impl ChainList / fn get_prev_pos
    fn get_prev_pos(&self, last_pos: usize) -> /*+*/ (r: /*-*/ Option<&BucketValue> /*+*/)
        requires self.wf()
        ensures r is Some == self.link(last_pos) is Some, r matches Some(b) ==> held(*b) == self.link(last_pos), r is Some ==> self.positions@.len() > 0
    /*-*/ {
        if self.positions.is_empty() {
            return None;
        }
        /*+*/ proof { lemma_link(*self, last_pos); } /*-*/
        let prev_idx_value = &self.positions[last_pos & self.mod_mask];
        if prev_idx_value.value == 0 {// End of chain or invalid position
            return None;
        }
        Some(prev_idx_value)
    }
//@end
//@item smdiff-encoder/src/hashmap.rs impl ChainList / fn insert
    fn insert(&mut self, hash:usize, key_position: usize, position: usize)
        /*+*/ requires old(self).wf(), position < usize::MAX
        ensures final(self).wf(), final(self).positions@.len() == old(self).positions@.len(), final(self).mod_mask == old(self).mod_mask,
            forall|p: usize| #[trigger] final(self).link(p) == (if final(self).positions@.len() > 0 && final(self).same_link(key_position, p) { Some((hash, position)) } else { old(self).link(p) })
    /*-*/ {
        if self.positions.is_empty() {return;}
        /*+*/ proof { lemma_link(*self, key_position); assert forall|p: usize| (#[trigger] (p & self.mod_mask)) < self.positions@.len() by { lemma_link(*self, p); } } /*-*/
        let _ = self.positions.get_mut(key_position & self.mod_mask).unwrap().set(hash, position);
    }
//@end
//@item smdiff-encoder/src/hashmap.rs impl ChainList / fn iter_prev_starts
    fn iter_prev_starts<'a>(&'a self, last_pos: usize, cur_out_pos: usize, hash_value:usize) -> /*+*/ (r: /*-*/ PrevPositionIterator<'a>/*+*/)
        requires self.wf(), last_pos <= cur_out_pos
        ensures r.walks() == *self, r.at_pos() == last_pos, r.cur() == cur_out_pos, self.positions@.len() > 0 ==> r.hash() == hash_value
    /*-*/{
        PrevPositionIterator::new(&self, last_pos, cur_out_pos, hash_value)
    }
//@end
}
//@item smdiff-encoder/src/hashmap.rs struct PrevPositionIterator !private
struct PrevPositionIterator<'a> {
    list: &'a ChainList,
    last_pos: usize,     // Base position for comparison
    cur_out_pos: usize,  // Current output position
    hash_value: usize,     // Mask for modulo operation
}
//@end
impl<'a> PrevPositionIterator<'a> {
    #[verifier::type_invariant]
    spec fn wf(&self) -> bool { self.list.wf() && self.last_pos <= self.cur_out_pos }
    /// the table it walks, the position it stands at, the position it is asked for, the hash it looks for
    pub closed spec fn walks(&self) -> ChainList { *self.list }
    pub closed spec fn at_pos(&self) -> usize { self.last_pos }
    pub closed spec fn cur(&self) -> usize { self.cur_out_pos }
    pub closed spec fn hash(&self) -> usize { self.hash_value }
}
/// following the links from `from` leads to `to`, through falling positions
pub open spec fn leads(c: ChainList, from: usize, to: usize) -> bool
    decreases from
{
    c.link(from) matches Some(e) && e.1 < from && (e.1 == to || leads(c, e.1, to))
}
/// p was stored for the hash h in the entry of a position between last and p
pub open spec fn stored(c: ChainList, last: usize, h: usize, p: usize) -> bool {
    exists|q: usize| (q == last || leads(c, last, q)) && #[trigger] c.link(q) == Some((h, p))
}
proof fn lemma_leads(c: ChainList, a: usize, b: usize, d: usize)
    requires leads(c, a, b), leads(c, b, d)
    ensures leads(c, a, d)
    decreases a
{
    let e = c.link(a).unwrap();
    if e.1 != b { lemma_leads(c, e.1, b, d); }
}

impl<'a> PrevPositionIterator<'a> {
//@item smdiff-encoder/src/hashmap.rs impl PrevPositionIterator / fn new
    fn new(list: &'a ChainList, last_pos: usize,cur_out_pos:usize, hash_value:usize) -> /*+*/ (r: /*-*/ Self /*+*/)
        requires list.wf(), last_pos <= cur_out_pos
        ensures r.walks() == *list, r.at_pos() == last_pos, r.cur() == cur_out_pos, list.positions@.len() > 0 ==> r.hash() == hash_value
    /*-*/ {
        if list.positions.is_empty() {
            return Self {
                list,
                last_pos,
                cur_out_pos,
                hash_value: 0,
            };
        }
        Self {
            list,
            last_pos,
            cur_out_pos,
            hash_value,
        }
    }
//@end
}

impl<'a> vstd::std_specs::iter::IteratorSpecImpl for PrevPositionIterator<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    open spec fn remaining(&self) -> Seq<Self::Item> { Seq::empty() }
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
}
impl<'a> Iterator for PrevPositionIterator<'a> {
    type Item = usize;
//@item smdiff-encoder/src/hashmap.rs impl Iterator for PrevPositionIterator / fn next !trait_member
    fn next(&mut self) -> /*+*/ (r: /*-*/ Option<Self::Item> /*+*/)
        ensures
            final(self).walks() == old(self).walks(), final(self).cur() == old(self).cur(), final(self).hash() == old(self).hash(),
            r matches Some(p) ==> {
                &&& p < old(self).at_pos() && p == final(self).at_pos() && old(self).cur() - p < old(self).walks().positions@.len()
                &&& stored(old(self).walks(), old(self).at_pos(), old(self).hash(), p)
            },
    /*-*/ {
        /*+*/ proof { use_type_invariant(&*self); } let ghost s0 = *self; /*-*/
        loop
            /*+*/ invariant self.wf() && self.list == s0.list && self.cur_out_pos == s0.cur_out_pos && self.hash_value == s0.hash_value
                    && self.last_pos <= s0.last_pos && (self.last_pos == s0.last_pos || leads(*s0.list, s0.last_pos, self.last_pos)), s0 == *old(self)
            decreases self.last_pos /*-*/
        {
            let populated_bucket = self.list.get_prev_pos(self.last_pos)?;
            // Check for termination conditions
            let prev_pos = populated_bucket.get_value_unchecked(); //safe since get_prev_pos checks
            if prev_pos >= self.last_pos {
                return None; // End of chain or invalid position
            }
            /*+*/ let ghost lp = self.last_pos; /*-*/
            //This is a valid-looking position, but it may not be part of the chain
            self.last_pos = prev_pos;
            /*+*/ proof { assert(leads(*s0.list, lp, prev_pos)); if lp != s0.last_pos { lemma_leads(*s0.list, s0.last_pos, lp, prev_pos); } } /*-*/

            let diff_pos = self.cur_out_pos - self.last_pos;
            if diff_pos  >= self.list.positions.len(){
                // Exceeded buffer capacity (wrap-around)
                // This position is technically valid looking, but logically cannot be part of this chain
                // This position has logically been evicted, but has not been overwritten in the buffer
                return None;
            }
            if populated_bucket.hash == self.hash_value {
                return Some(prev_pos);
            }

        }
    }
//@end
}

// ---------------------------------------------------------------- theorem: histories of insertions
/// the last insertion of the history that went to the slot of h
pub open spec fn last_in_slot(t: BasicHashTable, hist: Seq<(usize, usize)>, h: usize) -> Option<(usize, usize)>
    decreases hist.len()
{
    if hist.len() == 0 { None } else if t.same_slot(hist.last().0, h) { Some(hist.last()) } else { last_in_slot(t, hist.drop_last(), h) }
}
proof fn lemma_last_like(t: BasicHashTable, u: BasicHashTable, hist: Seq<(usize, usize)>, h: usize)
    requires t.like(&u)
    ensures last_in_slot(t, hist, h) == last_in_slot(u, hist, h)
    decreases hist.len()
{ if hist.len() > 0 { lemma_last_like(t, u, hist.drop_last(), h); } }
/// every history: a lookup finds the latest insertion in the slot of the hash, if it was made for that hash
pub fn c15_history(cap: usize, narrow: bool, hist: &Vec<(usize, usize)>, h: usize) -> (r: Option<usize>)
    requires cap < (if narrow { 0x1_0000_0000usize } else { 0x4000_0000_0000_0000 }), fits(h, narrow),
        forall|i: int| 0 <= i < hist@.len() ==> fits((#[trigger] hist@[i]).0, narrow) && hist@[i].1 < usize::MAX,
    ensures exists|t: BasicHashTable| #[trigger] t.wf(narrow) && r == (match last_in_slot(t, hist@, h) { Some((k, p)) if k == h => Some(p), _ => None::<usize> })
{
    let mut t = BasicHashTable::new(cap, narrow);
    proof { assert forall|k: usize| #[trigger] fits(k, narrow) implies t.at(k) is None by { let bits = choose|bits: usize| #[trigger] t.made(bits, narrow); lemma_slot(k, bits, narrow); } }
    let mut i = 0;
    assert(hist@.take(0) =~= Seq::empty());
    while i < hist.len()
        invariant t.wf(narrow), i <= hist@.len(),
            forall|j: int| 0 <= j < hist@.len() ==> fits((#[trigger] hist@[j]).0, narrow) && hist@[j].1 < usize::MAX,
            forall|k: usize| fits(k, narrow) ==> #[trigger] t.at(k) == last_in_slot(t, hist@.take(i as int), k),
        decreases hist@.len() - i
    {
        let ghost t0 = t;
        let (k, p) = hist[i];
        assert(fits(k, narrow));
        let _ = t.insert(k, p);
        i += 1;
        proof {
            assert(hist@.take(i as int).drop_last() =~= hist@.take(i - 1));
            assert forall|k: usize| fits(k, narrow) implies #[trigger] t.at(k) == last_in_slot(t, hist@.take(i as int), k) by {
                lemma_last_like(t, t0, hist@.take(i - 1), k);
                assert(t0.at(k) == last_in_slot(t0, hist@.take(i - 1), k));
            }
        }
    }
    assert(hist@.take(i as int) =~= hist@);
    let r = t.get(h);
    assert(t.at(h) == last_in_slot(t, hist@, h));
    r
}

}
}
