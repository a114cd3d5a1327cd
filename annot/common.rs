//@alloc
pub mod smdiff_common {
use vstd::prelude::*;
use crate::io::*;
#[allow(unused_imports)]
use vstd::arithmetic::power2::*;
#[allow(unused_imports)]
use vstd::bits::*;
verus! {

//@item smdiff-common/src/lib.rs const OP_MASK
const OP_MASK: u8 = 0b11000000;
//@end
//@item smdiff-common/src/lib.rs const COPY_D
const COPY_D: u8 = 0b00000000;
//@end
//@item smdiff-common/src/lib.rs const COPY_O
const COPY_O: u8 = 0b01000000;
//@end
//@item smdiff-common/src/lib.rs const ADD
const ADD: u8 = 0b10000000;
//@end
//@item smdiff-common/src/lib.rs const RUN
const RUN: u8 = 0b11000000;
//@end
//@item smdiff-common/src/lib.rs const SIZE_MASK
const SIZE_MASK: u8 = 0b00111111;
//@end
//@item smdiff-common/src/lib.rs const MAX_RUN_LEN
const MAX_RUN_LEN:u8 = 62;
//@end
//@item smdiff-common/src/lib.rs const MAX_INST_SIZE
const MAX_INST_SIZE:usize = u16::MAX as usize;
//@end
//@item smdiff-common/src/lib.rs const MAX_WIN_SIZE
/*+*/exec/*-*/ const MAX_WIN_SIZE:usize /*+*/ ensures MAX_WIN_SIZE == 16777215 { assert((1usize<<24) == 16777216) by (bit_vector); /*-*/ /*~const_block|=|~*/ /*~*/ (1<<24) - 1 /*~const_block|;|~*/ } /*~*/
//@end
//@item smdiff-common/src/lib.rs const SECTION_CONTINUE_BIT
const SECTION_CONTINUE_BIT: u8 = 0b10000000;
//@end
//@item smdiff-common/src/lib.rs const SECTION_FORMAT_BIT
const SECTION_FORMAT_BIT: u8 = 0b01000000;
//@end
//@item smdiff-common/src/lib.rs const SECTION_COMPRESSION_MASK
const SECTION_COMPRESSION_MASK: u8 = 0b00111000;
//@end
//@item smdiff-common/src/lib.rs const SECTION_COMPRESSION_RSHIFT
const SECTION_COMPRESSION_RSHIFT: u8 = 3;
//@end

//@item smdiff-common/src/lib.rs enum Format
#[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
enum Format {
    Interleaved,
    Segregated,
}
//@end

impl Default for Format {
//@item smdiff-common/src/lib.rs impl Default for Format / fn default !trait_member
    fn default() -> /*+*/ (r: /*-*/ Self /*+*/) ensures r is Interleaved /*-*/ {
        Format::Interleaved
    }
//@end
}
impl Format {
//@item smdiff-common/src/lib.rs impl Format / fn is_interleaved
    fn is_interleaved(&self) -> /*+*/(r:/*-*/ bool /*+*/) ensures r == (*self is Interleaved) /*-*/ {
        matches!(self, Format::Interleaved{..})
    }
//@end
//@item smdiff-common/src/lib.rs impl Format / fn is_segregated
    fn is_segregated(&self) -> /*+*/(r:/*-*/ bool /*+*/) ensures r == (*self is Segregated) /*-*/ {
        matches!(self, Format::Segregated)
    }
//@end
}

//@item smdiff-common/src/lib.rs struct SectionHeader
#[derive(Copy, Clone, Debug, PartialEq)]
struct SectionHeader {
    compression_algo: u8,
    format: Format,
    more_sections: bool,
    num_operations: u32,
    num_add_bytes: u32,
    output_size: u32,
}
//@end

impl SectionHeader {
//@item smdiff-common/src/lib.rs impl SectionHeader / fn new
    fn new(num_operations: u32, num_add_bytes: u32, output_size: u32) -> /*+*/ (r: /*-*/ Self /*+*/)
        ensures r == (SectionHeader { compression_algo: 0, format: Format::Interleaved, more_sections: false, num_operations, num_add_bytes, output_size })
    /*-*/ {
        Self { num_operations, num_add_bytes, output_size, /*~derived_default| ..Default::default() |~*/ compression_algo: 0, format: Format::default(), more_sections: false /*~*/ }
    }
//@end
//@item smdiff-common/src/lib.rs impl SectionHeader / fn set_compression_algo
    fn set_compression_algo(self, compression_algo: u8) -> /*+*/ (r: /*-*/ Self /*+*/)
        ensures r == (SectionHeader { compression_algo: if compression_algo > 7 { 7 } else { compression_algo }, ..self })
    /*-*/ {
        let mut vp_self = self;
        vp_self.compression_algo = compression_algo.clamp(0, 7);
        vp_self
    }
//@end
//@item smdiff-common/src/lib.rs impl SectionHeader / fn set_format
    fn set_format(self, format: Format) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (SectionHeader { format, ..self }) /*-*/ {
        let mut vp_self = self;
        vp_self.format = format;
        vp_self
    }
//@end
//@item smdiff-common/src/lib.rs impl SectionHeader / fn set_more_sections
    fn set_more_sections(self, more_sections: bool) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (SectionHeader { more_sections, ..self }) /*-*/ {
        let mut vp_self = self;
        vp_self.more_sections = more_sections;
        vp_self
    }
//@end
//@item smdiff-common/src/lib.rs impl SectionHeader / fn is_compressed
    fn is_compressed(&self) -> /*+*/ (r: /*-*/ bool /*+*/) ensures r == (self.compression_algo != 0) /*-*/ {
        self.compression_algo != 0
    }
//@end
//@item smdiff-common/src/lib.rs impl SectionHeader / fn is_interleaved
    fn is_interleaved(&self) -> /*+*/ (r: /*-*/ bool /*+*/) ensures r == (self.format is Interleaved) /*-*/ {
        self.format.is_interleaved()
    }
//@end
}

//@item smdiff-common/src/lib.rs trait AddOp
trait AddOp{
    /*+*/ spec fn view(&self) -> Seq<u8>; /*-*/
    fn bytes(&self) -> /*+*/ (r: /*-*/ &[u8] /*+*/) ensures r@ == self.view() /*-*/;
}
//@end

//@item smdiff-common/src/lib.rs struct Run
#[derive(Clone, Debug, PartialEq, Eq)]
struct Run{
    byte: u8,
    len: u8,
}
//@end
//@item smdiff-common/src/lib.rs struct Copy
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
struct Copy{
    src: CopySrc,
    addr: u64,
    len: u16,
}
//@end
//@item smdiff-common/src/lib.rs enum CopySrc
#[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
enum CopySrc{
    Dict,
    Output,
}
//@end
//@item smdiff-common/src/lib.rs enum Op
#[derive(Debug)]
enum Op<A>{
    Run(Run),
    Copy(Copy),
    Add(A),
}
//@end

/// size class bits and op type bits never overlap
pub open spec fn flag_of<A>(op: Op<A>) -> u8 {
    match op {
        Op::Run(_) => 0xC0u8,
        Op::Copy(c) => if c.src is Dict { 0u8 } else { 0x40u8 },
        Op::Add(_) => 0x80u8,
    }
}
/// number of output bytes of an operation (mathematical)
pub open spec fn op_len<A: AddOp>(op: Op<A>) -> nat {
    match op {
        Op::Run(r) => r.len as nat,
        Op::Copy(c) => c.len as nat,
        Op::Add(a) => a.view().len(),
    }
}

impl<A> Op<A> {
//@item smdiff-common/src/lib.rs impl Op / fn bit_flag
    fn bit_flag(&self) -> /*+*/ (r: /*-*/ u8 /*+*/) ensures r == flag_of(*self) /*-*/ {
        match self {
            Op::Run(_) => RUN,
            Op::Copy(copy) => match copy.src {
                CopySrc::Dict => COPY_D,
                CopySrc::Output => COPY_O,
            },
            Op::Add(_) => ADD,
        }
    }
//@end
//@item smdiff-common/src/lib.rs impl Op / fn is_add
    fn is_add(&self) -> /*+*/ (r: /*-*/ bool /*+*/) ensures r == (*self is Add) /*-*/ {
        matches!(self, Op::Add(_))
    }
//@end
//@item smdiff-common/src/lib.rs impl Op / fn is_run
    fn is_run(&self) -> /*+*/ (r: /*-*/ bool /*+*/) ensures r == (*self is Run) /*-*/ {
        matches!(self, Op::Run(_))
    }
//@end
//@item smdiff-common/src/lib.rs impl Op / fn is_copy
    fn is_copy(&self) -> /*+*/ (r: /*-*/ bool /*+*/) ensures r == (*self is Copy) /*-*/ {
        matches!(self, Op::Copy(_))
    }
//@end
//@item smdiff-common/src/lib.rs impl Op / fn take_copy
    fn take_copy(&self) -> /*+*/ (r: /*-*/ Option<Copy> /*+*/) ensures r == (match *self { Op::Copy(c) => Some(c), _ => None }) /*-*/ {
        if let Op::Copy(copy) = self {
            Some(*copy)
        } else {
            None
        }
    }
//@end
}
impl<A:AddOp> Op<A> {
//@item smdiff-common/src/lib.rs impl Op / fn oal
    fn oal(&self) -> /*+*/ (r: /*-*/ u16 /*+*/)
        ensures r == (op_len(*self) as u16), op_len(*self) <= 65535 ==> r == op_len(*self), !(*self is Add) ==> op_len(*self) <= 65535 /*-*/ {
        match &self {
            Op::Add(add) => add.bytes().len() as u16,
            Op::Copy(copy) => copy.len,
            Op::Run(run) => run.len as u16,
        }
    }
//@end
}

//@item smdiff-common/src/lib.rs enum Size
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
enum Size{
    Done(u8),
    U8And62,
    U16
}
//@end

impl Size {
//@item smdiff-common/src/lib.rs impl Size / fn size_overhead
    fn size_overhead(&self) -> /*+*/ (r: /*-*/ usize /*+*/) ensures r == (match *self { Size::Done(_) => 0int, Size::U8And62 => 1, Size::U16 => 2 }) /*-*/ {
        match self {
            Size::Done(_) => 0,
            Size::U8And62 => 1,
            Size::U16 => 2,
        }
    }
//@end
}

pub open spec fn size_class(size: u16) -> Size {
    if 1 <= size <= 62 { Size::Done(size as u8) } else if size == 63 { Size::U8And62 } else { Size::U16 }
}

//@item smdiff-common/src/lib.rs fn size_routine
fn size_routine(size: u16)-> /*+*/ (r: /*-*/ Size /*+*/) ensures r == size_class(size) /*-*/ {
    match size {
        1..=62 => Size::Done(size as u8),
        63 => Size::U8And62,
        _ => Size::U16,
    }
}
//@end

// ------------------------------------------------------------------ zigzag

pub open spec fn zz(n: i64) -> u64 {
    if n >= 0 { (2 * n) as u64 } else { (-2 * (n as int) - 1) as u64 }
}
pub open spec fn unzz(z: u64) -> i64 {
    if z % 2 == 0 { (z / 2) as i64 } else { (-((z / 2) as int) - 1) as i64 }
}
pub proof fn lemma_zz(n: i64)
    ensures unzz(zz(n)) == n
{ }
pub proof fn lemma_unzz(z: u64)
    ensures zz(unzz(z)) == z
{ }

//@item smdiff-common/src/lib.rs fn zigzag_encode
fn zigzag_encode(n: i64) -> /*+*/ (r: /*-*/ u64 /*+*/) ensures r == zz(n) /*-*/ {
    /*+*/ proof {
        assert(n >= 0 ==> ((n << 1) ^ (n >> 63)) as u64 == mul(2, n as u64)) by (bit_vector);
        assert(n < 0 ==> ((n << 1) ^ (n >> 63)) as u64 == add(mul(2, (!n) as u64),1)) by (bit_vector);
        assert(n < 0 ==> !n >= 0) by (bit_vector);
        assert(!n + n == -1 ) by (bit_vector);
    } /*-*/
    ((n << 1) ^ (n >> 63)) as u64
}
//@end

//@item smdiff-common/src/lib.rs fn zigzag_decode
fn zigzag_decode(z: u64) -> /*+*/ (r: /*-*/ i64 /*+*/) ensures r == unzz(z) /*-*/ {
    /*+*/ proof {
        assert((z & 1) == 0 || (z & 1) == 1) by (bit_vector);
        assert((z & 1) == z % 2) by (bit_vector);
        assert((z >> 1) == z / 2) by (bit_vector);
        let a = (z >> 1) as i64;
        assert((a ^ 0i64) == a) by (bit_vector);
        assert((a ^ (-1i64)) == -1 - a) by (bit_vector);
    } /*-*/
    ((z >> 1) as i64) ^ -((z & 1) as i64)
}
//@end


// ------------------------------------------------------------------ varints

/// the u-varint encoding of n: seven bits per byte, least significant first, high bit = continuation
pub open spec fn uv(n: nat) -> Seq<u8>
    decreases n
{
    if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + uv(n / 128) }
}
/// value denoted by a string of varint bytes (continuation bits ignored)
pub open spec fn uval(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { (s[0] % 128) as nat + 128 * uval(s.skip(1)) }
}
/// s is one complete varint: continuation bit on all bytes but the last
pub open spec fn uwf(s: Seq<u8>) -> bool {
    s.len() >= 1 && s[s.len() - 1] < 128 && (forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] >= 128)
}
pub open spec fn uv_size(n: nat) -> nat
    decreases n
{
    if n < 128 { 1 } else { 1 + uv_size(n / 128) }
}

pub proof fn lemma_uv(n: nat)
    ensures uwf(uv(n)), uval(uv(n)) == n, uv(n).len() == uv_size(n)
    decreases n
{
    reveal_with_fuel(uv, 2);
    reveal_with_fuel(uval, 2);
    if n < 128 {
        assert(uv(n).skip(1) =~= Seq::<u8>::empty());
        assert((n as u8) % 128 == n);
    } else {
        lemma_uv(n / 128);
        let t = uv(n / 128);
        assert(uv(n).skip(1) =~= t);
        assert(uv(n)[0] % 128 == n % 128);
        assert forall|i: int| 0 <= i < uv(n).len() - 1 implies #[trigger] uv(n)[i] >= 128 by {
            if i > 0 { assert(uv(n)[i] == t[i - 1]); }
        }
    }
}
/// two complete varints that start the same stream are the same
pub proof fn lemma_uwf_unique(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), uwf(s.take(a)), uwf(s.take(b))
    ensures a == b
{
    if a < b { assert(s.take(b)[a - 1] == s.take(a)[a - 1]); }
    if b < a { assert(s.take(a)[b - 1] == s.take(b)[b - 1]); }
}
pub proof fn lemma_uv_size(n: nat, k: nat)
    requires n < pow2(7 * k), k >= 1
    ensures uv_size(n) <= k
    decreases k
{
    if n >= 128 {
        if k == 1 { lemma2_to64(); }
        else {
            lemma_pow2_adds(7, (7 * (k - 1)) as nat);
            lemma2_to64();
            assert(n / 128 < pow2((7 * (k - 1)) as nat)) by (nonlinear_arith)
                requires n < pow2(7 * k), pow2(7 * k) == 128 * pow2((7 * (k - 1)) as nat);
            lemma_uv_size(n / 128, (k - 1) as nat);
        }
    }
}
/// appending one byte on the right
pub proof fn lemma_uval_push(s: Seq<u8>, b: u8)
    ensures uval(s.push(b)) == uval(s) + (b % 128) * pow2(7 * s.len())
    decreases s.len()
{
    lemma2_to64();
    reveal_with_fuel(uval, 2);
    if s.len() == 0 {
        assert(s.push(b).skip(1) =~= Seq::<u8>::empty());
        assert(uval(s.push(b).skip(1)) == 0);
        assert(7 * s.len() == 0);
        assert(pow2(0) == 1);
        assert((b % 128) * pow2(0) == b % 128) by (nonlinear_arith) requires pow2(0) == 1;
    } else {
        assert(s.push(b)[0] == s[0]);
        lemma_uval_push(s.skip(1), b);
        assert(s.push(b).skip(1) =~= s.skip(1).push(b));
        lemma_pow2_adds(7, (7 * (s.len() - 1)) as nat);
        assert(7 + 7 * (s.len() - 1) == 7 * s.len());
        let p = pow2((7 * (s.len() - 1)) as nat);
        let q = (b % 128) as nat;
        assert(128 * (uval(s.skip(1)) + q * p) == 128 * uval(s.skip(1)) + q * (128 * p)) by (nonlinear_arith);
    }
}
pub proof fn lemma_uval_bound(s: Seq<u8>)
    ensures uval(s) < pow2(7 * s.len())
    decreases s.len()
{
    lemma2_to64();
    reveal_with_fuel(uval, 2);
    if s.len() > 0 {
        lemma_uval_bound(s.skip(1));
        lemma_pow2_adds(7, (7 * (s.len() - 1)) as nat);
        assert(7 + 7 * (s.len() - 1) == 7 * s.len());
        let p = pow2((7 * (s.len() - 1)) as nat);
        assert((s[0] % 128) + 128 * uval(s.skip(1)) < 128 * p) by (nonlinear_arith)
            requires uval(s.skip(1)) + 1 <= p, 0 <= s[0] % 128 < 128;
    }
}
/// the bytes that a reader consumed between two states
pub open spec fn eaten<R: std::io::Read>(a: R, b: R, s: Seq<u8>) -> bool {
    &&& b.rdata() == a.rdata()
    &&& b.rreliable() == a.rreliable()
    &&& 0 <= a.rpos() && (s.len() == 0 || b.rpos() <= a.rdata().len())
    &&& b.rpos() == a.rpos() + s.len()
    &&& s.len() == 0 || s == a.rdata().subrange(a.rpos(), b.rpos())
}
/// frame condition of every reading function
pub open spec fn same_stream<R: std::io::Read>(a: R, b: R) -> bool {
    b.rdata() == a.rdata() && b.rreliable() == a.rreliable() && b.rid() == a.rid()
}
/// the unread data of `r` starts with s
pub open spec fn offers<R: std::io::Read>(r: R, s: Seq<u8>) -> bool {
    &&& 0 <= r.rpos() && r.rpos() + s.len() <= r.rdata().len()
    &&& s == r.rdata().subrange(r.rpos(), r.rpos() + s.len())
}

//@item smdiff-common/src/lib.rs fn write_u_varint
fn write_u_varint<W: std::io::Write>(writer: &mut W, mut n: u64) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures r.is_ok() ==> (*final(writer)).written() == (*old(writer)).written() + uv(n as nat),
        (*old(writer)).wreliable() ==> r.is_ok(),
        (*final(writer)).wreliable() == (*old(writer)).wreliable()
/*-*/ {
    /*+*/ let ghost n0 = n; /*-*/
    let mut buf = [0u8; 10];
    let mut i = 0;
    /*+*/ proof { assert(n <= 0xffff_ffff_ffff_ffffu64 >> 0u64) by (bit_vector); } /*-*/
    while n >= 0x80 /*+*/
        invariant 0 <= i <= 9, n <= (0xffff_ffff_ffff_ffffu64 >> (7 * i) as u64),
            uv(n0 as nat) =~= buf@.take(i as int) + uv(n as nat),
            buf@.len() == 10
        decreases n
    /*-*/ {
        /*+*/ let ghost n1 = n; let ghost b1 = buf@; let ghost i1 = i;
        proof {
            let k = (7 * i) as u64;
            assert(n >= 0x80 && k <= 63 && n <= (0xffff_ffff_ffff_ffffu64 >> k) ==> k <= 56 && (n >> 7) <= (0xffff_ffff_ffff_ffffu64 >> add(k, 7))) by (bit_vector);
            assert(((n & 0x7F) | 0x80) == n % 128 + 128) by (bit_vector);
            assert((n >> 7) == n / 128) by (bit_vector);
        } /*-*/
        buf[i] = ((n & 0x7F) | 0x80) as u8;
        n >>= 7;
        i += 1;
        /*+*/ proof {
            assert(buf@.take(i as int) =~= b1.take(i1 as int).push((n1 % 128 + 128) as u8));
            assert(buf@.take(i as int) + uv(n as nat) =~= b1.take(i1 as int) + uv(n1 as nat));
        } /*-*/
    }
    buf[i] = n as u8;
    /*+*/ proof { assert(buf@.subrange(0, i + 1) =~= uv(n0 as nat)); } /*-*/
    writer.write_all(/*~slice|&buf[..=i]|~*/ vstd::slice::slice_subrange(&buf, 0, i + 1) /*~*/)
}
//@end

//@item smdiff-common/src/lib.rs fn read_u_varint
fn read_u_varint<R: std::io::Read>(reader: &mut R) -> /*+*/ (r: /*-*/ std::io::Result<u64> /*+*/)
    ensures same_stream(*old(reader), *final(reader)),
        match r {
            Ok(v) => exists|s: Seq<u8>| uwf(s) && s.len() <= 10 && uval(s) == v && #[trigger] eaten(*old(reader), *final(reader), s),
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>| uwf(s) && s.len() <= 10 && uval(s) <= u64::MAX ==> !#[trigger] offers(*old(reader), s),
        },
/*-*/ {
    let mut result = 0u64;
    let mut shift = 0;
    let mut b = [0u8; 1];
    /*+*/ let ghost mut s: Seq<u8> = Seq::empty(); let ghost rd0 = *reader; let ghost rd1 = *reader;
    proof { lemma2_to64(); lemma2_to64_rest(); reveal_with_fuel(uval, 2); } /*-*/
    loop /*+*/
        invariant_except_break
            s.len() == 0 ==> *reader == rd0,
            shift == 7 * s.len(),
            forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 128,
        invariant
            same_stream(rd0, *reader), rd0 == *old(reader), b@.len() == 1,
            s.len() > 0 ==> eaten(rd0, *reader, s),
            s.len() <= 10,
            result == uval(s),
        ensures
            eaten(rd0, *reader, s), uwf(s), s.len() <= 10, result == uval(s), same_stream(rd0, *reader),
        decreases 10 - s.len()
    /*-*/ {
        /*+*/ proof {
            rd1 = *reader;
            if rd0.rreliable() && !(rd1.rpos() >= 0 && rd1.rpos() + 1 <= rd1.rdata().len()) {
                assert forall|z: Seq<u8>| uwf(z) && z.len() <= 10 && uval(z) <= u64::MAX implies !#[trigger] offers(rd0, z) by {
                    if offers(rd0, z) && s.len() > 0 {
                        assert(z.len() <= s.len());
                        assert(s[z.len() - 1] == z[z.len() - 1]);
                    }
                }
            }
        } /*-*/
        reader.read_exact(&mut b)?;
        let byte = b[0];
        /*+*/ let ghost s1 = s; let ghost r1 = result;
        proof {
            s = s1.push(byte);
            assert(b@ =~= rd1.rdata().subrange(rd1.rpos(), rd1.rpos() + 1));
            assert(s =~= rd0.rdata().subrange(rd0.rpos(), rd0.rpos() + s.len()));
            lemma_uval_push(s1, byte);
            lemma_uval_bound(s1);
            assert((byte & 0x7F) == byte % 128) by (bit_vector);
            assert((byte & 0x80 == 0) == (byte < 128)) by (bit_vector);
            // every varint offered by the stream extends s (or is s)
            assert forall|z: Seq<u8>| uwf(z) && #[trigger] offers(rd0, z) implies z.len() >= s.len() && s == z.take(s.len() as int) by {
                if z.len() < s.len() { assert(s[z.len() - 1] == z[z.len() - 1]); }
                assert(s =~= z.take(s.len() as int));
            }
        } /*-*/
        if shift > 63 || (shift == 63 && byte & 0x7F > 1) {
            /*+*/ proof {
                assert forall|z: Seq<u8>| uwf(z) && z.len() <= 10 && uval(z) <= u64::MAX implies !#[trigger] offers(rd0, z) by {
                    if offers(rd0, z) {
                        lemma2_to64(); lemma2_to64_rest();
                        lemma_uval_prefix(z, s.len() as int);
                        if shift == 63 {
                            assert(s.len() == 10);
                            assert((byte % 128) * pow2(63) >= 2 * pow2(63)) by (nonlinear_arith) requires byte % 128 >= 2;
                            assert(pow2(63) == 0x8000_0000_0000_0000);
                        }
                    }
                }
            } /*-*/
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "u-varint does not fit in a u64"));
        }
        /*+*/ proof {
            lemma2_to64(); lemma2_to64_rest();
            let x = (byte & 0x7F) as u64;
            let k = shift as u64;
            lemma_u64_pow2_no_overflow(k as nat);
            lemma_pow2_le(k as nat, 63);
            if k == 63 { assert(x * pow2(63) <= pow2(63)) by (nonlinear_arith) requires x <= 1; assert(x * pow2(63) <= u64::MAX); }
            else {
                assert(k <= 56);
                lemma_pow2_le(k as nat, 56);
                assert(x * pow2(k as nat) <= 127 * pow2(56)) by (nonlinear_arith) requires x <= 127, pow2(k as nat) <= pow2(56);
            }
            lemma_u64_shl_is_mul(x, k);
            lemma_u64_shl_is_mul(1u64, k);
            let r1 = result;
            assert(r1 < (1u64 << k));
            assert(k <= 63 && r1 < (1u64 << k) ==> (r1 & (x << k)) == 0) by (bit_vector);
            assert((r1 & (x << k)) == 0 ==> (r1 | (x << k)) == add(r1, x << k)) by (bit_vector);
            assert((r1 & (x << k)) == 0 ==> add(r1, x << k) >= r1) by (bit_vector);
            assert((r1 | (x << k)) == r1 + (x << k));
        } /*-*/
        result |= ((byte & 0x7F) as u64) << shift;
        if byte & 0x80 == 0 {
            break;
        }
        shift += 7;
    }
    Ok(result)
}
//@end

pub proof fn lemma_pow2_le(a: nat, b: nat)
    requires a <= b
    ensures pow2(a) <= pow2(b)
{
    if a < b { lemma_pow2_strictly_increases(a, b); }
}
pub proof fn lemma_uval_prefix(z: Seq<u8>, k: int)
    requires 0 <= k <= z.len()
    ensures uval(z.take(k)) <= uval(z)
    decreases z.len() - k
{
    if k < z.len() {
        lemma_uval_prefix(z, k + 1);
        assert(z.take(k + 1) =~= z.take(k).push(z[k]));
        lemma_uval_push(z.take(k), z[k]);
    } else {
        assert(z.take(k) =~= z);
    }
}


//@item smdiff-common/src/lib.rs fn write_i_varint
fn write_i_varint<W: std::io::Write>(writer: &mut W, n: i64) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures r.is_ok() ==> (*final(writer)).written() == (*old(writer)).written() + uv(zz(n) as nat),
        (*old(writer)).wreliable() ==> r.is_ok(),
        (*final(writer)).wreliable() == (*old(writer)).wreliable()
/*-*/ {
    write_u_varint(writer, zigzag_encode(n as i64))
}
//@end

//@item smdiff-common/src/lib.rs fn read_i_varint
fn read_i_varint<R: std::io::Read>(reader: &mut R) -> /*+*/ (r: /*-*/ std::io::Result<i64> /*+*/)
    ensures same_stream(*old(reader), *final(reader)),
        match r {
            Ok(v) => exists|s: Seq<u8>| uwf(s) && s.len() <= 10 && uval(s) == zz(v) && #[trigger] eaten(*old(reader), *final(reader), s),
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>| uwf(s) && s.len() <= 10 && uval(s) <= u64::MAX ==> !#[trigger] offers(*old(reader), s),
        },
/*-*/ {
    /*+*/ proof { assert forall|z: u64| #[trigger] zz(unzz(z)) == z by { lemma_unzz(z); } } /*-*/
    Ok(zigzag_decode(read_u_varint(reader)?))
}
//@end

//@item smdiff-common/src/lib.rs fn read_u8
fn read_u8<R: std::io::Read>(reader: &mut R) -> /*+*/ (r: /*-*/ std::io::Result<u8> /*+*/)
    ensures same_stream(*old(reader), *final(reader)),
        match r {
            Ok(v) => eaten(*old(reader), *final(reader), seq![v]),
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>| s.len() >= 1 ==> !#[trigger] offers(*old(reader), s),
        },
/*-*/ {
    let mut buf = [0u8; 1];
    reader.read_exact(&mut buf)?;
    /*+*/ proof { assert(buf@ =~= seq![buf@[0]]); } /*-*/
    Ok(buf[0])
}
//@end

//@item smdiff-common/src/lib.rs fn write_u8
fn write_u8<W: std::io::Write>(writer: &mut W, n: u8) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures r.is_ok() ==> (*final(writer)).written() == (*old(writer)).written() + seq![n],
        (*old(writer)).wreliable() ==> r.is_ok(),
        (*final(writer)).wreliable() == (*old(writer)).wreliable()
/*-*/ {
    /*+*/ proof { assert([n]@ =~= seq![n]); } /*-*/
    writer.write_all(&[n])
}
//@end

//@item smdiff-common/src/lib.rs fn read_u16
fn read_u16<R: std::io::Read>(reader: &mut R) -> /*+*/ (r: /*-*/ std::io::Result<u16> /*+*/)
    ensures same_stream(*old(reader), *final(reader)),
        match r {
            Ok(v) => eaten(*old(reader), *final(reader), le16(v)),
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>| s.len() >= 2 ==> !#[trigger] offers(*old(reader), s),
        },
/*-*/ {
    let mut buf = [0u8; 2];
    reader.read_exact(&mut buf)?;
    /*+*/ proof { assert(buf@ =~= le16((buf@[0] + 256 * buf@[1]) as u16)); } /*-*/
    Ok(u16::from_le_bytes(buf))
}
//@end

//@item smdiff-common/src/lib.rs fn write_u16
fn write_u16<W: std::io::Write>(writer: &mut W, n: u16) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures r.is_ok() ==> (*final(writer)).written() == (*old(writer)).written() + le16(n),
        (*old(writer)).wreliable() ==> r.is_ok(),
        (*final(writer)).wreliable() == (*old(writer)).wreliable()
/*-*/ {
    writer.write_all(&n.to_le_bytes())
}
//@end

//@item smdiff-common/src/lib.rs fn u_varint_encode_size
fn u_varint_encode_size(n: u64) -> /*+*/ (r: /*-*/ usize /*+*/)
    ensures r == uv(n as nat).len()
/*-*/ {
    /*+*/ let ghost n0 = n; proof { lemma_uv(n as nat); assert((n >> 7) == n / 128) by (bit_vector); } /*-*/
    let mut size = 1;
    let mut n = n >> 7;
    while n > 0 /*+*/
        invariant 1 <= (size as int), (size as int) + n <= 1 + n0 / 128,
            n == 0 ==> (size as int) == uv_size(n0 as nat), n > 0 ==> (size as int) + uv_size(n as nat) == uv_size(n0 as nat),
        decreases n
    /*-*/ {
        /*+*/ proof { assert((n >> 7) == n / 128) by (bit_vector); } /*-*/
        size += 1;
        n >>= 7;
    }
    size
}
//@end

// ------------------------------------------------------------------ address differences (modulo 2^64)

pub open spec fn wrap64(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }

/// the difference stored for `target` when the previous address is `cur`
pub open spec fn addr_diff(cur: u64, target: u64) -> i64 {
    let d = wrap64(target - cur);
    if d < 0x8000_0000_0000_0000 { d as i64 } else { (d - 0x1_0000_0000_0000_0000) as i64 }
}
pub open spec fn addr_apply(cur: u64, d: i64) -> u64 { wrap64(cur + d) }

pub proof fn lemma_addr(cur: u64, target: u64)
    ensures addr_apply(cur, addr_diff(cur, target)) == target
{ }

pub proof fn lemma_u64_as_i64(x: u64)
    ensures (x as i64) as int == (if x < 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 })
{
    if x >= 0x8000_0000_0000_0000 {
        let y = !x;
        assert((x as i64) == !(y as i64)) by (bit_vector) requires y == !x;
        assert(y < 0x8000_0000_0000_0000 && x == sub(0xffff_ffff_ffff_ffff, y)) by (bit_vector) requires y == !x, x >= 0x8000_0000_0000_0000;
        let v = y as i64;
        assert(!v + v == -1) by (bit_vector);
    }
}

proof fn lemma_casts()
    ensures
        forall|x: i64| x < 0 ==> #[trigger] (x as u64) as int == x as int + 0x1_0000_0000_0000_0000int,
        forall|x: u64| x >= 0x8000_0000_0000_0000u64 ==> #[trigger] (x as i64) as int == x as int - 0x1_0000_0000_0000_0000int,
{
    assert(forall|x: i64| x < 0 ==> #[trigger] (x as u64) as int == x as int + 0x1_0000_0000_0000_0000int) by (bit_vector);
    assert(forall|x: u64| x >= 0x8000_0000_0000_0000u64 ==> #[trigger] (x as i64) as int == x as int - 0x1_0000_0000_0000_0000int) by (bit_vector);
}

//@item smdiff-common/src/lib.rs fn diff_addresses_to_u64
fn diff_addresses_to_u64(cur: u64, input: i64) -> /*+*/ (r: /*-*/ u64 /*+*/) ensures r == addr_apply(cur, input) /*-*/ {
    /*+*/ proof { lemma_casts(); } /*-*/
    if input >= 0 {
        cur.wrapping_add(input as u64)
    } else {
        cur.wrapping_sub(input.unsigned_abs())
    }
}
//@end

//@item smdiff-common/src/lib.rs fn diff_addresses_to_i64
fn diff_addresses_to_i64(cur: u64, target: u64) -> /*+*/ (r: /*-*/ i64 /*+*/)
    ensures addr_apply(cur, r) == target
/*-*/ {
    /*+*/ proof {
        let a = sub(target, cur); let b = sub(cur, target);
        lemma_u64_as_i64(a); lemma_u64_as_i64(b);
        lemma_casts();
    } /*-*/
    if target > cur {
        (target - cur) as i64
    } else {
        ((cur - target) as i64).wrapping_neg()
    }
}
//@end

/// C04: what is written is what is read back, for every value, with nothing left over
pub proof fn c04_varint_roundtrip(n: u64, tail: Seq<u8>)
    ensures uwf(uv(n as nat)), uval(uv(n as nat)) == n, 1 <= uv(n as nat).len() <= 10,
        forall|s: Seq<u8>| #[trigger] uwf(s) && s.len() <= (uv(n as nat) + tail).len() && s == (uv(n as nat) + tail).take(s.len() as int) ==> s == uv(n as nat),
{
    lemma_uv(n as nat);
    lemma2_to64(); lemma2_to64_rest();
    lemma_pow2_le(64, 70);
    lemma_uv_size(n as nat, 10);
    let e = uv(n as nat);
    assert forall|s: Seq<u8>| #[trigger] uwf(s) && s.len() <= (e + tail).len() && s == (e + tail).take(s.len() as int) implies s == e by {
        assert((e + tail).take(e.len() as int) =~= e);
        lemma_uwf_unique(e + tail, s.len() as int, e.len() as int);
    }
}
pub proof fn c04_signed_roundtrip(n: i64)
    ensures unzz(zz(n)) == n, forall|m: i64| zz(m) == zz(n) ==> m == n
{
    lemma_zz(n);
    assert forall|m: i64| zz(m) == zz(n) implies m == n by { lemma_zz(m); }
}
pub proof fn c04_address_roundtrip(cur: u64, target: u64, d: i64)
    requires addr_apply(cur, d) == target
    ensures addr_apply(cur, unzz(zz(d))) == target
{ lemma_zz(d); }
pub proof fn c04_u16_roundtrip(a: u16, b: u16)
    ensures le16(a) == le16(b) ==> a == b
{
    if le16(a) == le16(b) { assert(le16(a)[0] == le16(b)[0]); assert(le16(a)[1] == le16(b)[1]); }
}

} }
