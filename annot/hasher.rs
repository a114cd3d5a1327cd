// The rolling checksums of the encoder (C14).
pub mod hasher {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::io::*;
verus! {

//@item smdiff-encoder/src/hasher.rs const HASH_MULTIPLIER_64_BIT
const HASH_MULTIPLIER_64_BIT: u64 = 1181783497276652981;
//@end
//@item smdiff-encoder/src/hasher.rs const MOD_INV
const MOD_INV: usize = 13515856136758413469;
//@end
//@item smdiff-encoder/src/hasher.rs const HASH_MULT
const HASH_MULT: usize = HASH_MULTIPLIER_64_BIT as usize;
//@end
//@item smdiff-encoder/src/hasher.rs const FIRST_BYTE_WEIGHT
const FIRST_BYTE_WEIGHT: usize = 2694756932615366293;
//@end
//@item smdiff-encoder/src/hasher.rs const POWERS
const POWERS: [usize; 9] =[
    12309708155212419425,
    10962798122732597373,
    17101839937587700905,
    4214492644603347877,
    1752871083341145137,
    13959273915025570317,
    12787978306174927353,
    1181783497276652981,
    1,
];
//@end
//@item smdiff-encoder/src/hasher.rs const SMALL_POWERS
const SMALL_POWERS: [u32; 4] = [
    1143961941,
    1940812585,
    3141592653,
    1,
];
//@end
//@item smdiff-encoder/src/hasher.rs const SMALL_FIRST_BYTE_WEIGHT
const SMALL_FIRST_BYTE_WEIGHT: u32 = 2508840081;
//@end

pub open spec fn n64() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn n32() -> int { 0x1_0000_0000 }
pub open spec fn wide(p: Seq<usize>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i] as int) }
pub open spec fn wide32(p: Seq<u32>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i] as int) }
/// the weighted sum of the first n bytes
pub open spec fn psum(d: Seq<u8>, p: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { psum(d, p, n - 1) + p[n - 1] * d[n - 1] } }
pub open spec fn shorter(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the direct checksum of a window
pub open spec fn large(d: Seq<u8>) -> int { psum(d, wide(POWERS@), shorter(d.len() as int, 9)) % n64() }
pub open spec fn small(d: Seq<u8>) -> int { psum(d, wide32(SMALL_POWERS@), shorter(d.len() as int, 4)) % n32() }

// ---------------------------------------------------------------- congruences
proof fn cong_mul(a: int, b: int, k: int, n: int)
    requires n > 0, a % n == b % n
    ensures (a * k) % n == (b * k) % n, (k * a) % n == (k * b) % n
{
    lemma_mul_mod_noop_left(a, k, n);
    lemma_mul_mod_noop_left(b, k, n);
    assert(k * a == a * k && k * b == b * k) by (nonlinear_arith);
}
proof fn cong_add(a: int, b: int, c: int, d: int, n: int)
    requires n > 0, a % n == b % n, c % n == d % n
    ensures (a + c) % n == (b + d) % n, (a - c) % n == (b - d) % n
{
    lemma_add_mod_noop(a, c, n);
    lemma_add_mod_noop(b, d, n);
    lemma_sub_mod_noop(a, c, n);
    lemma_sub_mod_noop(b, d, n);
}
proof fn cong_mod(a: int, n: int)
    requires n > 0
    ensures (a % n) % n == a % n
{ lemma_mod_twice(a, n); }
/// m times the sum over a window, with each product replaced by the weight it is congruent to
proof fn lemma_shift(d: Seq<u8>, p: Seq<int>, m: int, w: int, k: int, n: int)
    requires n > 0, 1 <= k, k <= d.len(), k <= p.len(), (m * p[0]) % n == w % n, forall|i: int| 1 <= i < p.len() ==> (m * #[trigger] p[i]) % n == p[i - 1] % n,
    ensures (m * psum(d, p, k)) % n == (w * d[0] + psum(d.skip(1), p, k - 1)) % n
    decreases k
{
    let a = psum(d, p, k - 1);
    let t = p[k - 1] * d[k - 1];
    assert(m * (a + t) == m * a + m * t) by (nonlinear_arith);
    assert(m * t == (m * p[k - 1]) * d[k - 1]) by (nonlinear_arith) requires t == p[k - 1] * d[k - 1];
    if k == 1 {
        assert(psum(d, p, 0) == 0);
        assert(m * 0 == 0) by (nonlinear_arith);
        cong_mul(m * p[0], w, d[0] as int, n);
        assert(psum(d.skip(1), p, 0) == 0);
    } else {
        lemma_shift(d, p, m, w, k - 1, n);
        cong_mul(m * p[k - 1], p[k - 2], d[k - 1] as int, n);
        assert(d.skip(1)[k - 2] == d[k - 1]);
        cong_add(m * a, w * d[0] + psum(d.skip(1), p, k - 2), m * t, p[k - 2] * d[k - 1], n);
    }
}
pub proof fn lemma_psum_ext(d: Seq<u8>, e: Seq<u8>, p: Seq<int>, k: int)
    requires k <= d.len(), k <= e.len(), forall|i: int| 0 <= i < k ==> d[i] == e[i]
    ensures psum(d, p, k) == psum(e, p, k)
    decreases k
{ if k > 0 { lemma_psum_ext(d, e, p, k - 1); } }

/// the weights fit the multiplier
proof fn lemma_weights()
    ensures (HASH_MULT * wide(POWERS@)[0]) % n64() == FIRST_BYTE_WEIGHT as int % n64(), wide(POWERS@)[8] == 1, wide(POWERS@).len() == 9,
        forall|i: int| 1 <= i < 9 ==> (HASH_MULT * #[trigger] wide(POWERS@)[i]) % n64() == wide(POWERS@)[i - 1] % n64(),
        (MOD_INV * HASH_MULT) % n64() == 1,
{
    let p = wide(POWERS@);
    assert((HASH_MULT * p[1]) % n64() == p[0] && (HASH_MULT * p[2]) % n64() == p[1] && (HASH_MULT * p[3]) % n64() == p[2] && (HASH_MULT * p[4]) % n64() == p[3]);
    assert((HASH_MULT * p[5]) % n64() == p[4] && (HASH_MULT * p[6]) % n64() == p[5] && (HASH_MULT * p[7]) % n64() == p[6] && (HASH_MULT * p[8]) % n64() == p[7]);
}
proof fn lemma_small_weights()
    ensures (3141592653 * wide32(SMALL_POWERS@)[0]) % n32() == SMALL_FIRST_BYTE_WEIGHT as int % n32(), wide32(SMALL_POWERS@)[3] == 1, wide32(SMALL_POWERS@).len() == 4,
        forall|i: int| 1 <= i < 4 ==> (3141592653 * #[trigger] wide32(SMALL_POWERS@)[i]) % n32() == wide32(SMALL_POWERS@)[i - 1] % n32(),
{
    let p = wide32(SMALL_POWERS@);
    assert((3141592653 * p[1]) % n32() == p[0] && (3141592653 * p[2]) % n32() == p[1] && (3141592653 * p[3]) % n32() == p[2]);
}
/// d is a window of k bytes and the byte after it
proof fn lemma_slide(d: Seq<u8>, p: Seq<int>, m: int, w: int, k: int, n: int)
    requires n > 0, k >= 1, d.len() == k + 1, p.len() == k, p[k - 1] == 1, (m * p[0]) % n == w % n, forall|i: int| 1 <= i < p.len() ==> (m * #[trigger] p[i]) % n == p[i - 1] % n,
    ensures (m * (psum(d.take(k), p, k) % n) - w * d[0] + d[k]) % n == psum(d.skip(1), p, k) % n
{
    let s = psum(d.take(k), p, k);
    let t = psum(d.skip(1), p, k - 1);
    lemma_psum_ext(d, d.take(k), p, k);
    lemma_shift(d, p, m, w, k, n);
    cong_mod(s, n);
    cong_mul(s % n, s, m, n);
    cong_add(m * (s % n), w * d[0] + t, w * d[0], w * d[0], n);
    cong_add(m * (s % n) - w * d[0], t, d[k] as int, d[k] as int, n);
    assert(d.skip(1)[k - 1] == d[k]);
    assert(1 * d[k] == d[k]);
}

/// what the wrapping operations mean
proof fn lemma_wrapping(a: usize, b: usize)
    ensures a.wrapping_mul(b) == (a * b) % n64(), a.wrapping_sub(b) == (a - b) % n64(), a.wrapping_add(b) == (a + b) % n64()
{ }
proof fn lemma_wrapping32(a: u32, b: u32)
    ensures a.wrapping_mul(b) == (a * b) % n32(), a.wrapping_sub(b) == (a - b) % n32(), a.wrapping_add(b) == (a + b) % n32()
{ }
proof fn lemma_acc(acc: usize, p: usize, b: usize, a0: int)
    requires acc == a0 % n64()
    ensures acc.wrapping_add(p.wrapping_mul(b)) == (a0 + p * b) % n64()
{
    lemma_wrapping(p, b); lemma_wrapping(acc, p.wrapping_mul(b));
    cong_mod(a0, n64()); cong_mod(p * b, n64());
    cong_add(a0 % n64(), a0, (p * b) % n64(), p * b, n64());
}
//@item smdiff-encoder/src/hasher.rs fn calculate_large_checksum
fn calculate_large_checksum(data: &[u8]) -> /*+*/ (r: /*-*/ usize /*+*/)
    ensures r == large(data@)
/*-*/ {
    /*+*/ assert(n64() == usize::MAX + 1); /*-*/
    { let mut acc /*+*/ : usize /*-*/ = 0; for (byte, power) in /*+*/ it: /*-*/ data.iter().zip(POWERS.iter())
        /*+*/ invariant acc == psum(data@, wide(POWERS@), it.index@ as int) % n64(), it.seq().len() == shorter(data@.len() as int, 9),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == data@[i] && *it.seq()[i].1 == POWERS@[i], /*-*/
        { /*+*/ let ghost a0 = psum(data@, wide(POWERS@), it.index@ as int); let ghost t = POWERS@[it.index@ as int] * data@[it.index@ as int];
            proof {
                assert(psum(data@, wide(POWERS@), it.index@ + 1) == a0 + t);
                lemma_acc(acc, POWERS@[it.index@ as int], data@[it.index@ as int] as usize, a0);
            } /*-*/
            acc = {
            acc.wrapping_add(power.wrapping_mul(*byte as usize))
        }; } acc }
}
//@end

/// wrapping at every step is wrapping once at the end
proof fn lemma_wrap_fwd(m: int, c: int, w: int, old: int, new: int, n: int)
    requires n > 0
    ensures (((m * c) % n - (w * old) % n) % n + new) % n == (m * c - w * old + new) % n
{
    let (a, b) = (m * c, w * old);
    cong_mod(a, n); cong_mod(b, n);
    cong_add(a % n, a, b % n, b, n);
    cong_mod(a % n - b % n, n);
    cong_add((a % n - b % n) % n, a - b, new, new, n);
}
proof fn lemma_wrap_bwd(c: int, old: int, w: int, new: int, i: int, n: int)
    requires n > 0
    ensures ((((c - old) % n + (w * new) % n) % n) * i) % n == ((c - old + w * new) * i) % n
{
    let (a, y) = (c - old, w * new);
    cong_mod(a, n); cong_mod(y, n);
    cong_add(a % n, a, y % n, y, n);
    cong_mod(a % n + y % n, n);
    cong_mul((a % n + y % n) % n, a + y, i, n);
}
proof fn lemma_fwd(m: usize, c: usize, w: usize, old: usize, new: usize)
    ensures m.wrapping_mul(c).wrapping_sub(w.wrapping_mul(old)).wrapping_add(new) == (m * c - w * old + new) % n64()
{
    let x = m.wrapping_mul(c);
    let y = w.wrapping_mul(old);
    lemma_wrapping(m, c); lemma_wrapping(w, old); lemma_wrapping(x, y); lemma_wrapping(x.wrapping_sub(y), new);
    lemma_wrap_fwd(m as int, c as int, w as int, old as int, new as int, n64());
}
proof fn lemma_fwd32(m: u32, c: u32, w: u32, old: u32, new: u32)
    ensures m.wrapping_mul(c).wrapping_sub(w.wrapping_mul(old)).wrapping_add(new) == (m * c - w * old + new) % n32()
{
    let x = m.wrapping_mul(c);
    let y = w.wrapping_mul(old);
    lemma_wrapping32(m, c); lemma_wrapping32(w, old); lemma_wrapping32(x, y); lemma_wrapping32(x.wrapping_sub(y), new);
    lemma_wrap_fwd(m as int, c as int, w as int, old as int, new as int, n32());
}
proof fn lemma_bwd(c: usize, old: usize, w: usize, new: usize, i: usize)
    ensures c.wrapping_sub(old).wrapping_add(w.wrapping_mul(new)).wrapping_mul(i) == ((c - old + w * new) * i) % n64()
{
    let x = c.wrapping_sub(old);
    let y = w.wrapping_mul(new);
    lemma_wrapping(c, old); lemma_wrapping(w, new); lemma_wrapping(x, y); lemma_wrapping(x.wrapping_add(y), i);
    lemma_wrap_bwd(c as int, old as int, w as int, new as int, i as int, n64());
}
proof fn lemma_large_fwd(d: Seq<u8>)
    requires d.len() == 10
    ensures (HASH_MULT * large(d.take(9)) - FIRST_BYTE_WEIGHT * d[0] + d[9]) % n64() == large(d.skip(1))
{
    lemma_weights();
    lemma_slide(d, wide(POWERS@), HASH_MULT as int, FIRST_BYTE_WEIGHT as int, 9, n64());
}
/// undoing m*c - y + o, where i is the inverse of m
proof fn lemma_undo(c: int, k: int, y: int, o: int, m: int, i: int, n: int)
    requires n > 0, c == (m * k - y + o) % n, (i * m) % n == 1int % n, 0 <= k < n
    ensures ((c - o + y) * i) % n == k
{
    let x = m * k - y + o;
    cong_mod(x, n);
    cong_add(c, x, o, o, n);
    cong_add(c - o, x - o, y, y, n);
    assert(x - o + y == m * k);
    cong_mul(c - o + y, m * k, i, n);
    assert((m * k) * i == (i * m) * k) by (nonlinear_arith);
    cong_mul(i * m, 1, k, n);
    assert(1 * k == k);
    lemma_small_mod(k as nat, n as nat);
}
proof fn lemma_large_bwd(d: Seq<u8>)
    requires d.len() == 10
    ensures ((large(d.skip(1)) - d[9] + FIRST_BYTE_WEIGHT * d[0]) * MOD_INV) % n64() == large(d.take(9))
{
    lemma_weights();
    lemma_large_fwd(d);
    lemma_mod_bound(psum(d.take(9), wide(POWERS@), 9), n64());
    lemma_undo(large(d.skip(1)), large(d.take(9)), FIRST_BYTE_WEIGHT * d[0], d[9] as int, HASH_MULT as int, MOD_INV as int, n64());
}
proof fn lemma_small_fwd(d: Seq<u8>)
    requires d.len() == 5
    ensures (3141592653 * small(d.take(4)) - SMALL_FIRST_BYTE_WEIGHT * d[0] + d[4]) % n32() == small(d.skip(1))
{
    lemma_small_weights();
    lemma_slide(d, wide32(SMALL_POWERS@), 3141592653, SMALL_FIRST_BYTE_WEIGHT as int, 4, n32());
}

//@item smdiff-encoder/src/hasher.rs fn update_large_checksum_fwd
fn update_large_checksum_fwd(checksum: usize, old:u8, new:u8) -> /*+*/ (r: /*-*/ usize /*+*/)
    ensures forall|d: Seq<u8>| d.len() == 10 && d[0] == old && d[9] == new && checksum == #[trigger] large(d.take(9)) ==> r == large(d.skip(1))
/*-*/ {
    /*+*/ hide(large); proof {
        assert forall|d: Seq<u8>| d.len() == 10 && d[0] == old && d[9] == new && checksum == #[trigger] large(d.take(9)) implies
            HASH_MULT.wrapping_mul(checksum).wrapping_sub(FIRST_BYTE_WEIGHT.wrapping_mul(old as usize)).wrapping_add(new as usize) == large(d.skip(1))
            by { lemma_large_fwd(d); lemma_fwd(HASH_MULT, checksum, FIRST_BYTE_WEIGHT, old as usize, new as usize); }
    } /*-*/
    (HASH_MULT).wrapping_mul(checksum)
    .wrapping_sub(FIRST_BYTE_WEIGHT.wrapping_mul(old as usize))
    .wrapping_add(new as usize)
}
//@end

//@item smdiff-encoder/src/hasher.rs fn update_large_checksum_bwd
fn update_large_checksum_bwd(checksum: usize, old:u8, new:u8) -> /*+*/ (r: /*-*/ usize /*+*/)
    ensures forall|d: Seq<u8>| d.len() == 10 && d[9] == old && d[0] == new && checksum == #[trigger] large(d.skip(1)) ==> r == large(d.take(9))
/*-*/ {
    /*+*/ hide(large); proof {
        assert forall|d: Seq<u8>| d.len() == 10 && d[9] == old && d[0] == new && checksum == #[trigger] large(d.skip(1)) implies
            checksum.wrapping_sub(old as usize).wrapping_add(FIRST_BYTE_WEIGHT.wrapping_mul(new as usize)).wrapping_mul(MOD_INV) == large(d.take(9))
            by { lemma_large_bwd(d); lemma_bwd(checksum, old as usize, FIRST_BYTE_WEIGHT, new as usize, MOD_INV); }
    } /*-*/
    checksum.wrapping_sub(old as usize)
    .wrapping_add(FIRST_BYTE_WEIGHT.wrapping_mul(new as usize))
    .wrapping_mul(MOD_INV)
}
//@end

proof fn lemma_acc32(acc: u32, p: u32, b: u32, a0: int)
    requires acc == a0 % n32()
    ensures acc.wrapping_add(p.wrapping_mul(b)) == (a0 + p * b) % n32()
{
    lemma_wrapping32(p, b); lemma_wrapping32(acc, p.wrapping_mul(b));
    cong_mod(a0, n32()); cong_mod(p * b, n32());
    cong_add(a0 % n32(), a0, (p * b) % n32(), p * b, n32());
}
//@item smdiff-encoder/src/hasher.rs fn calculate_small_checksum
fn calculate_small_checksum(data: &[u8]) -> /*+*/ (r: /*-*/ u32 /*+*/)
    ensures r == small(data@)
/*-*/ {
    { let mut acc /*+*/ : u32 /*-*/ = 0; for (byte, power) in /*+*/ it: /*-*/ data.iter().zip(SMALL_POWERS.iter())
        /*+*/ invariant acc == psum(data@, wide32(SMALL_POWERS@), it.index@ as int) % n32(), it.seq().len() == shorter(data@.len() as int, 4),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == data@[i] && *it.seq()[i].1 == SMALL_POWERS@[i], /*-*/
        { /*+*/ let ghost a0 = psum(data@, wide32(SMALL_POWERS@), it.index@ as int); let ghost t = SMALL_POWERS@[it.index@ as int] * data@[it.index@ as int];
            proof {
                assert(psum(data@, wide32(SMALL_POWERS@), it.index@ + 1) == a0 + t);
                lemma_acc32(acc, SMALL_POWERS@[it.index@ as int], data@[it.index@ as int] as u32, a0);
            } /*-*/
            acc = {
            acc.wrapping_add(power.wrapping_mul(*byte as u32))
        }; } acc }
}
//@end

//@item smdiff-encoder/src/hasher.rs fn update_small_checksum_fwd
fn update_small_checksum_fwd(checksum: u32, old:u8, new:u8) -> /*+*/ (r: /*-*/ u32 /*+*/)
    ensures forall|d: Seq<u8>| d.len() == 5 && d[0] == old && d[4] == new && checksum == #[trigger] small(d.take(4)) ==> r == small(d.skip(1))
/*-*/ {
    /*+*/ hide(small); proof {
        assert forall|d: Seq<u8>| d.len() == 5 && d[0] == old && d[4] == new && checksum == #[trigger] small(d.take(4)) implies
            3141592653u32.wrapping_mul(checksum).wrapping_sub(SMALL_FIRST_BYTE_WEIGHT.wrapping_mul(old as u32)).wrapping_add(new as u32) == small(d.skip(1))
            by { lemma_small_fwd(d); lemma_fwd32(3141592653, checksum, SMALL_FIRST_BYTE_WEIGHT, old as u32, new as u32); }
    } /*-*/
    (3141592653u32).wrapping_mul(checksum)
    .wrapping_sub(SMALL_FIRST_BYTE_WEIGHT.wrapping_mul(old as u32))
    .wrapping_add(new as u32)
}
//@end

}
}
