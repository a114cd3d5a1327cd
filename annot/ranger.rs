// Mapping of compression levels (C17).
pub mod ranger {
use vstd::prelude::*;
use std::ops::{Range, RangeInclusive};
use crate::io::*;
verus! {

// integer and range primitives of core (trusted: their documented meaning)
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification<Idx> [RangeInclusive::<Idx>::start] (a: &RangeInclusive<Idx>) -> (r: &Idx) ensures *r == a@.start;
pub assume_specification<Idx> [RangeInclusive::<Idx>::end] (a: &RangeInclusive<Idx>) -> (r: &Idx) ensures *r == a@.end;

pub open spec fn lesser(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn dist(a: int, b: int) -> int { if a <= b { b - a } else { a - b } }
pub open spec fn nearest(v: int, lo: int, hi: int) -> int { if v < lo { lo } else if v > hi { hi } else { v } }

//@item smdiff-encoder/src/lib.rs struct Ranger
struct Ranger {
    input_range: Range<usize>,
    output_range: RangeInclusive<usize>,
    input_span: usize,
    output_span: usize,
    is_inverted: bool,
}
//@end

impl Ranger {
    pub open spec fn wf(&self) -> bool {
        &&& self.input_range.start + 2 <= self.input_range.end
        &&& self.input_span == self.input_range.end - 1 - self.input_range.start
        &&& self.output_span == dist(self.output_range@.start as int, self.output_range@.end as int)
        &&& self.is_inverted == (self.output_range@.start > self.output_range@.end)
        &&& self.output_span * self.input_span <= usize::MAX
        &&& 2 * (self.output_range@.start + self.output_range@.end) <= usize::MAX
    }
    /// how far r lies from the value that belongs to the lowest level
    pub open spec fn off(&self, r: int) -> int {
        if self.is_inverted { self.output_range@.start - r } else { r - self.output_range@.start }
    }
    /// r lies in the output range and less than one unit from the straight line between its ends
    pub open spec fn near(&self, m: int, r: int) -> bool {
        &&& 0 <= self.off(r) <= self.output_span
        &&& -self.input_span < self.input_span * self.off(r) - self.output_span * m < self.input_span
    }
}
/// both ends are reached
pub proof fn lemma_ends(s: Ranger, m: int, r: int)
    requires s.wf(), s.near(m, r)
    ensures m == 0 ==> r == s.output_range@.start, m == s.input_span ==> r == s.output_range@.end
{
    let (a, b, x) = (s.input_span as int, s.output_span as int, s.off(r));
    if m == 0 {
        assert(b * 0 == 0);
        assert(x == 0) by (nonlinear_arith) requires -a < a * x < a, a > 0;
    }
    if m == a {
        assert(a * x - b * a == a * (x - b)) by (nonlinear_arith);
        assert(x - b == 0) by (nonlinear_arith) requires -a < a * (x - b) < a, a > 0;
    }
}

impl Ranger {
//@item smdiff-encoder/src/lib.rs impl Ranger / fn new
fn new(input_range: Range<usize>, output_range: RangeInclusive<usize>) -> /*+*/ (r: /*-*/ Self /*+*/)
    requires input_range.start + 2 <= input_range.end, 2 * (output_range@.start + output_range@.end) <= usize::MAX,
        dist(output_range@.start as int, output_range@.end as int) * (input_range.end - 1 - input_range.start) <= usize::MAX,
    ensures r.wf(), r.input_range == input_range, r.output_range == output_range
/*-*/ {
    let input_span = input_range.end - input_range.start - 1;
    let is_inverted = output_range.start() > output_range.end();
    let output_span = output_range.end().abs_diff(*output_range.start());

    Self { input_range, output_range, input_span, output_span, is_inverted }
}
//@end
}

impl Ranger {
//@item smdiff-encoder/src/lib.rs impl Ranger / fn map
fn map(&self, input_value: usize) -> /*+*/ (r: /*-*/ usize /*+*/)
    requires self.wf()
    ensures self.near(nearest(input_value as int, self.input_range.start as int, self.input_range.end - 1) - self.input_range.start, r as int),
        input_value <= self.input_range.start ==> r == self.output_range@.start,
        input_value >= self.input_range.end - 1 ==> r == self.output_range@.end,
/*-*/ {
    let input_value = input_value.clamp(self.input_range.start, self.input_range.end-1);
    let b = self.output_range.start().min(self.output_range.end());
    let m = input_value - self.input_range.start;
    /*+*/ proof {
        let (n, d) = (self.output_span as int, self.input_span as int);
        assert(n * m <= n * d) by (nonlinear_arith) requires 0 <= m <= d, 0 <= n;
        assert(m * n == n * m) by (nonlinear_arith);
        let q = (n * m) / d;
        assert(d * q <= n * m < d * q + d && 0 <= q) by (nonlinear_arith) requires d > 0, 0 <= n * m, q == (n * m) / d;
        assert(q <= n) by (nonlinear_arith) requires d > 0, d * q <= n * m, n * m <= n * d;
        if m == d { assert(q == n) by (nonlinear_arith) requires d > 0, d * q <= n * d, n * d < d * q + d; }
        if m == 0 { assert(n * 0 == 0); assert(q == 0) by (nonlinear_arith) requires d > 0, d * q <= 0, 0 <= q; }
    } /*-*/
    //let m = if self.is_inverted {self.input_range.end - input_value}else{input_value-self.input_range.start};
    let output = b + ((self.output_span * m) / self.input_span);
    if self.is_inverted{
        self.output_span+self.output_range.end() - output + self.output_range.end()
    }else{
        output
    }
}
//@end
}

//@item smdiff-encoder/src/src_matcher.rs struct SrcMatcherConfig
struct SrcMatcherConfig{
    l_step: usize,
    max_src_win_size: Option<usize>,
}
//@end
//@item smdiff-encoder/src/trgt_matcher.rs struct TrgtMatcherConfig
struct TrgtMatcherConfig{
    compress_early_exit:usize,
    chain_check: usize,
    prev_table_capacity: Option<usize>,
}
//@end

/// x is less than one unit from the straight line with slope n / 9
pub open spec fn line(n: int, level: int, x: int) -> bool { 0 <= x <= n && -9 < 9 * x - n * level < 9 }

impl SrcMatcherConfig {
//@item smdiff-encoder/src/src_matcher.rs impl SrcMatcherConfig / fn comp_level
fn comp_level(level:usize)->/*+*/ (r: /*-*/Self/*+*/)
    requires level <= 9
    ensures 2 <= r.l_step <= 26, level == 0 ==> r.l_step == 26, level == 9 ==> r.l_step == 2, line(24, level as int, 26 - r.l_step), r.max_src_win_size is None
/*-*/{
    vp_assert(level <= 9);
    let l_step = Ranger::new(0..10, 26..=2).map(level);
    Self { l_step, max_src_win_size: None}
}
//@end
}
impl Default for SrcMatcherConfig {
//@item smdiff-encoder/src/src_matcher.rs impl Default for SrcMatcherConfig / fn default !trait_member
fn default() -> /*+*/ (r: /*-*/ Self /*+*/) ensures 2 <= r.l_step <= 26, line(24, 3, 26 - r.l_step) /*-*/ {
    Self::comp_level(3)
}
//@end
}
impl TrgtMatcherConfig {
//@item smdiff-encoder/src/trgt_matcher.rs impl TrgtMatcherConfig / fn comp_level
fn comp_level(level:usize)->/*+*/ (r: /*-*/Self/*+*/)
    requires level <= 9
    ensures 6 <= r.compress_early_exit <= 70, level == 0 ==> r.compress_early_exit == 6, level == 9 ==> r.compress_early_exit == 70, line(64, level as int, r.compress_early_exit - 6),
        1 <= r.chain_check <= 33, level == 0 ==> r.chain_check == 1, level == 9 ==> r.chain_check == 33, line(32, level as int, r.chain_check - 1), r.prev_table_capacity is None
/*-*/{
    vp_assert(level <= 9);
    let compress_early_exit = Ranger::new(0..10, 6..=70).map(level);
    let chain_check = Ranger::new(0..10, 1..=33).map(level);
    Self { compress_early_exit, chain_check, prev_table_capacity: None}
}
//@end
}
impl Default for TrgtMatcherConfig {
//@item smdiff-encoder/src/trgt_matcher.rs impl Default for TrgtMatcherConfig / fn default !trait_member
fn default() -> /*+*/ (r: /*-*/ Self /*+*/) ensures line(64, 3, r.compress_early_exit - 6), line(32, 3, r.chain_check - 1) /*-*/ {
    Self::comp_level(3)
}
//@end
}

/// the settings of two levels are ordered as the levels are
pub proof fn c17_monotone(n: int, l1: int, l2: int, x1: int, x2: int)
    requires line(n, l1, x1), line(n, l2, x2), l1 <= l2, n >= 18
    ensures l1 < l2 ==> x1 <= x2
{
    if l1 < l2 {
        assert(n * l2 - n * l1 >= 18) by (nonlinear_arith) requires n >= 18, l2 - l1 >= 1;
    }
}
/// ... for the real configurations
pub fn c17_levels(l1: usize, l2: usize)
    requires l1 <= l2 <= 9
{
    let (a, b) = (SrcMatcherConfig::comp_level(l1), SrcMatcherConfig::comp_level(l2));
    let (c, d) = (TrgtMatcherConfig::comp_level(l1), TrgtMatcherConfig::comp_level(l2));
    proof {
        c17_monotone(24, l1 as int, l2 as int, 26 - a.l_step, 26 - b.l_step);
        c17_monotone(64, l1 as int, l2 as int, c.compress_early_exit - 6, d.compress_early_exit - 6);
        c17_monotone(32, l1 as int, l2 as int, c.chain_check - 1, d.chain_check - 1);
        assert(l1 < l2 ==> a.l_step >= b.l_step && c.compress_early_exit <= d.compress_early_exit && c.chain_check <= d.chain_check);
    }
}

}
}
