//@alloc
pub mod smdiff_reader {
use vstd::prelude::*;
use std::io::Read;
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::*;
use crate::format::*;
verus! {

//@item smdiff-reader/src/lib.rs type Op
type Op = smdiff_common::Op<Add>;
//@end
//@item smdiff-reader/src/lib.rs struct Add
#[derive(Debug, PartialEq, Eq)]
struct Add{
    bytes: Vec<u8>,
}
//@end
impl AddOp for Add {
    open spec fn view(&self) -> Seq<u8> { self.bytes@ }
//@item smdiff-reader/src/lib.rs impl AddOp for Add / fn bytes
    fn bytes(&self) -> &[u8] {
        &self.bytes
    }
//@end
}
impl Add {
//@item smdiff-reader/src/lib.rs impl Add / fn new
    fn new(bytes: Vec<u8>) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r.bytes == bytes /*-*/ {
        Add { bytes }
    }
//@end
}

//@item smdiff-reader/src/lib.rs fn read_u32_varint
fn read_u32_varint<R: std::io::Read>(reader: &mut R) -> /*+*/ (r: /*-*/ std::io::Result<u32> /*+*/)
    ensures same_stream(*old(reader), *final(reader)),
        match r {
            Ok(v) => exists|s: Seq<u8>| is_uv(s, v as nat) && #[trigger] eaten(*old(reader), *final(reader), s),
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>, n: nat| is_uv(s, n) && n <= u32::MAX ==> !#[trigger] offers_n(*old(reader), s, n),
        },
/*-*/ {
    /*+*/ let ghost r0 = *reader; /*-*/
    let value = read_u_varint(reader)?;
    if value > u32::MAX as u64 {
        /*+*/ proof {
            let s = choose|s: Seq<u8>| uwf(s) && s.len() <= 10 && uval(s) == value && #[trigger] eaten(r0, *reader, s);
            assert forall|z: Seq<u8>, n: nat| is_uv(z, n) && n <= u32::MAX implies !#[trigger] offers_n(r0, z, n) by {
                if offers(r0, z) { assert(z =~= z.take(z.len() as int)); lemma_after_varint(r0, *reader, s, z, z); }
            }
        } /*-*/
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Section header field does not fit in a u32"));
    }
    Ok(value as u32)
}
//@end
pub open spec fn offers_n<R: std::io::Read>(r: R, s: Seq<u8>, n: nat) -> bool { offers(r, s) }
pub open spec fn offers_head<R: std::io::Read>(r: R, s: Seq<u8>, h: SHead) -> bool { offers(r, s) }
pub open spec fn offers_op<R: std::io::Read>(r: R, s: Seq<u8>, o: SOp) -> bool { offers(r, s) }
pub open spec fn offers_ops<R: std::io::Read>(r: R, s: Seq<u8>, o: Seq<SOp>) -> bool { offers(r, s) }

proof fn lemma_byte_bits(b: u8)
    ensures (b & 0b00111000u8) >> 3u8 == b % 64 / 8, (b & 0x40 == 0x40) == (b % 128 >= 64), (b & 0x80 == 0x80) == (b >= 128),
        b & 0x3F == b % 64, b & 0xC0 == b - b % 64, (b & 0xC0) == 0 || (b & 0xC0) == 0x40 || (b & 0xC0) == 0x80 || (b & 0xC0) == 0xC0
{
    assert((b & 0b00111000u8) >> 3u8 == (b % 64) / 8) by (bit_vector);
    assert((b & 0x40 == 0x40) == (b % 128 >= 64)) by (bit_vector);
    assert((b & 0x80 == 0x80) == (b >= 128)) by (bit_vector);
    assert(b & 0x3F == b % 64) by (bit_vector);
    assert(b & 0xC0 == sub(b, b % 64)) by (bit_vector);
    assert((b & 0xC0) == 0 || (b & 0xC0) == 0x40 || (b & 0xC0) == 0x80 || (b & 0xC0) == 0xC0) by (bit_vector);
}

pub open spec fn seg_of(b: u8) -> bool { b % 128 >= 64 }
proof fn lemma_control_bits(h: SHead, b: u8)
    requires control(h) == b - b % 8, h.algo <= 7
    ensures h.seg == seg_of(b), h.more == (b >= 128), h.algo == b % 64 / 8
{
    let c = (h.algo * 8 + (if h.seg { 0x40int } else { 0 }) + (if h.more { 0x80int } else { 0 }));
    assert(0 <= h.algo * 8 <= 56); assert(c == control(h) as int);
    let r = (b % 8) as int;
    assert(b == c + r);
    let y = h.algo * 8 + r;
    assert(0 <= y < 64 && y / 8 == h.algo);
    assert(b % 64 == y); assert(b % 128 == y + (if h.seg { 64int } else { 0 }));
}
proof fn lemma_control_of(h: SHead, b: u8)
    requires h.seg == seg_of(b), h.more == (b >= 128), h.algo == b % 64 / 8
    ensures control(h) == b - b % 8, h.algo <= 7
{
    let x = (b % 128) as int; let y = (b % 64) as int;
    assert(b == x || b == 128 + x) by { assert(b < 256); }
    assert(x == y || x == 64 + y) by { assert(x < 128); assert(b % 64 == x % 64); }
    assert(y == 8 * (y / 8) + y % 8);
    assert(y % 8 == b % 8);
    assert(h.algo as int == y / 8 && y / 8 <= 7);
}
// what remains of an offered header after its control byte, after the operation count, and after the add bytes
pub open spec fn stage1<R: std::io::Read>(r: R, b: u8, s: Seq<u8>, h: SHead, x: int, y: int) -> bool {
    is_head_at(s, x, y, h) && h.seg == seg_of(b) && offers(r, s.skip(1)) && offers_n(r, s.subrange(1, x), h.n)
}
pub open spec fn stage2<R: std::io::Read>(r: R, b: u8, s: Seq<u8>, h: SHead, x: int, y: int) -> bool {
    is_head_at(s, x, y, h) && h.seg == seg_of(b) && offers(r, s.skip(x)) && offers_n(r, s.subrange(x, y), h.adds) && (!h.seg ==> offers_n(r, s.skip(y), h.size))
}
pub open spec fn stage3<R: std::io::Read>(r: R, b: u8, n: nat, s: Seq<u8>, h: SHead, x: int, y: int) -> bool {
    is_head_at(s, x, y, h) && h.seg == seg_of(b) && (h.seg ==> h.adds == n) && offers(r, s.skip(y)) && offers_n(r, s.skip(y), (if h.seg { h.size - h.adds } else { h.size as int }) as nat)
}
pub open spec fn stage1e<R: std::io::Read>(r: R, b: u8, s: Seq<u8>, h: SHead) -> bool { exists|x: int, y: int| #[trigger] stage1(r, b, s, h, x, y) }
pub open spec fn stage2e<R: std::io::Read>(r: R, b: u8, s: Seq<u8>, h: SHead) -> bool { exists|x: int, y: int| #[trigger] stage2(r, b, s, h, x, y) }
pub open spec fn stage3e<R: std::io::Read>(r: R, b: u8, n: nat, s: Seq<u8>, h: SHead) -> bool { exists|x: int, y: int| #[trigger] stage3(r, b, n, s, h, x, y) }
proof fn lemma_stage1<R: std::io::Read>(r0: R, r1: R, b: u8, s: Seq<u8>, h: SHead)
    requires eaten(r0, r1, seq![b]), offers(r0, s), is_head(s, h)
    ensures stage1e(r1, b, s, h), exists|z: Seq<u8>| is_uv(z, h.n) && h.n <= u32::MAX && #[trigger] offers_n(r1, z, h.n)
{
    let (x, y) = choose|x: int, y: int| is_head_at(s, x, y, h);
    assert(seq![b][0] == r0.rdata()[r0.rpos()]);
    assert(s[0] == r0.rdata()[r0.rpos()]);
    assert(seq![b] =~= s.take(1));
    lemma_offers_skip(r0, r1, seq![b], s);
    lemma_control_bits(h, b);
    lemma_offers_take(r1, s.skip(1), x - 1);
    assert(s.skip(1).take(x - 1) =~= s.subrange(1, x));
    assert(stage1(r1, b, s, h, x, y));
}
proof fn lemma_stage2<R: std::io::Read>(r1: R, r2: R, b: u8, s1: Seq<u8>, n: nat, s: Seq<u8>, h: SHead)
    requires stage1e(r1, b, s, h), is_uv(s1, n), eaten(r1, r2, s1)
    ensures stage2e(r2, b, s, h), h.seg ==> exists|z: Seq<u8>| is_uv(z, h.adds) && h.adds <= u32::MAX && #[trigger] offers_n(r2, z, h.adds)
{
    let (x, y) = choose|x: int, y: int| stage1(r1, b, s, h, x, y);
    assert(s.subrange(1, x) =~= s.skip(1).take(x - 1));
    lemma_after_varint(r1, r2, s1, s.subrange(1, x), s.skip(1));
    assert(s.skip(1).skip(x - 1) =~= s.skip(x));
    lemma_offers_take(r2, s.skip(x), y - x);
    assert(s.skip(x).take(y - x) =~= s.subrange(x, y));
    assert(stage2(r2, b, s, h, x, y));
}
proof fn lemma_stage3<R: std::io::Read>(r2: R, r3: R, b: u8, s2: Seq<u8>, n: nat, s: Seq<u8>, h: SHead)
    requires stage2e(r2, b, s, h), seg_of(b) ==> is_uv(s2, n) && eaten(r2, r3, s2), !seg_of(b) ==> r2 == r3
    ensures stage3e(r3, b, n, s, h), exists|z: Seq<u8>, m: nat| is_uv(z, m) && m <= u32::MAX && #[trigger] offers_n(r3, z, m)
{
    let (x, y) = choose|x: int, y: int| stage2(r2, b, s, h, x, y);
    if h.seg {
        assert(s.subrange(x, y) =~= s.skip(x).take(y - x));
        lemma_after_varint(r2, r3, s2, s.subrange(x, y), s.skip(x));
        assert(s.skip(x).skip(y - x) =~= s.skip(y));
    }
    assert(stage3(r3, b, n, s, h, x, y));
}
proof fn lemma_stage4<R: std::io::Read>(r3: R, r4: R, b: u8, n: nat, s3: Seq<u8>, m: nat, s: Seq<u8>, h: SHead)
    requires stage3e(r3, b, n, s, h), is_uv(s3, m), eaten(r3, r4, s3)
    ensures seg_of(b) ==> n + m <= u32::MAX
{
    let (x, y) = choose|x: int, y: int| stage3(r3, b, n, s, h, x, y);
    assert(s.skip(y) =~= s.skip(y).take(s.len() - y));
    lemma_after_varint(r3, r4, s3, s.skip(y), s.skip(y));
}
proof fn lemma_head_done<R: std::io::Read>(r0: R, r1: R, r2: R, r3: R, r4: R, b: u8, s1: Seq<u8>, s2: Seq<u8>, s3: Seq<u8>, m: nat, h: SHead)
    requires eaten(r0, r1, seq![b]), eaten(r1, r2, s1), eaten(r2, r3, s2), eaten(r3, r4, s3),
        is_uv(s1, h.n), if h.seg { is_uv(s2, h.adds) } else { s2.len() == 0 }, is_uv(s3, m),
        h.seg == seg_of(b), h.more == (b >= 128), h.algo == b % 64 / 8, h.n <= u32::MAX, h.adds <= u32::MAX, h.size <= u32::MAX,
        h.size == (if h.seg { h.adds + m } else { m })
    ensures exists|s: Seq<u8>| is_head(s, h) && #[trigger] eaten(r0, r4, s)
{
    let s = seq![b] + s1 + s2 + s3;
    lemma_eaten_join(r0, r1, r2, seq![b], s1);
    lemma_eaten_join(r0, r2, r3, seq![b] + s1, s2);
    lemma_eaten_join(r0, r3, r4, seq![b] + s1 + s2, s3);
    let x = 1 + s1.len();
    let y = x + s2.len();
    assert(s.subrange(1, x as int) =~= s1);
    assert(s.subrange(x as int, y as int) =~= s2);
    assert(s.skip(y as int) =~= s3);
    lemma_control_of(h, b);
    assert(is_head_at(s, x as int, y as int, h));
}

//@item smdiff-reader/src/lib.rs fn read_section_header
fn read_section_header<R: std::io::Read>(reader: &mut R) -> /*+*/ (r: /*-*/ std::io::Result<SectionHeader> /*+*/)
    ensures same_stream(*old(reader), *final(reader)),
        match r {
            Ok(h) => (h.format is Interleaved ==> h.num_add_bytes == 0) && exists|s: Seq<u8>| is_head(s, shead(h)) && #[trigger] eaten(*old(reader), *final(reader), s),
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>, h: SHead| is_head(s, h) ==> !#[trigger] offers_head(*old(reader), s, h),
        },
/*-*/ {
    /*+*/ hide(is_uv); hide(is_head); hide(control); hide(stage1e); hide(stage2e); hide(stage3e); let ghost r0 = *reader;
    proof { assert forall|s: Seq<u8>, h: SHead| #[trigger] offers_head(r0, s, h) && is_head(s, h) implies offers(r0, s) && s.len() >= 1 by { reveal(is_head); } } /*-*/
    let header_byte = read_u8(reader)?;
    /*+*/ let ghost r1 = *reader; proof {
        lemma_byte_bits(header_byte);
        assert forall|s: Seq<u8>, h: SHead| #[trigger] offers_head(r0, s, h) && is_head(s, h) implies stage1e(r1, header_byte, s, h) && exists|z: Seq<u8>| is_uv(z, h.n) && h.n <= u32::MAX && #[trigger] offers_n(r1, z, h.n)
            by { lemma_stage1(r0, r1, header_byte, s, h); }
    } /*-*/
    let compression_algo = (header_byte & SECTION_COMPRESSION_MASK) >> SECTION_COMPRESSION_RSHIFT;
    let format = if header_byte & SECTION_FORMAT_BIT == SECTION_FORMAT_BIT{Format::Segregated} else {Format::Interleaved};
    let more_sections = (header_byte & SECTION_CONTINUE_BIT) == SECTION_CONTINUE_BIT;
    let num_operations = read_u32_varint(reader)?;
    /*+*/ let ghost r2 = *reader; let ghost s1 = choose|s: Seq<u8>| is_uv(s, num_operations as nat) && #[trigger] eaten(r1, r2, s);
    proof {
        assert forall|s: Seq<u8>, h: SHead| #[trigger] offers_head(r0, s, h) && is_head(s, h) implies stage2e(r2, header_byte, s, h)
            && (seg_of(header_byte) ==> exists|z: Seq<u8>| is_uv(z, h.adds) && h.adds <= u32::MAX && #[trigger] offers_n(r2, z, h.adds))
            by { lemma_stage2(r1, r2, header_byte, s1, num_operations as nat, s, h); reveal(stage2e); }
    } /*-*/
    let num_add_bytes = if format.is_segregated() {
        read_u32_varint(reader)?
    } else {
        0
    };
    /*+*/ let ghost r3 = *reader; let ghost s2 = if format is Segregated { choose|s: Seq<u8>| is_uv(s, num_add_bytes as nat) && #[trigger] eaten(r2, r3, s) } else { Seq::<u8>::empty() };
    proof {
        if format is Interleaved { lemma_eaten_none(r2); }
        assert forall|s: Seq<u8>, h: SHead| #[trigger] offers_head(r0, s, h) && is_head(s, h) implies stage3e(r3, header_byte, num_add_bytes as nat, s, h)
            && exists|z: Seq<u8>, m: nat| is_uv(z, m) && m <= u32::MAX && #[trigger] offers_n(r3, z, m)
            by { lemma_stage3(r2, r3, header_byte, s2, num_add_bytes as nat, s, h); }
    } /*-*/
    let read_size = read_u32_varint(reader)?;
    /*+*/ let ghost r4 = *reader; let ghost s3 = choose|s: Seq<u8>| is_uv(s, read_size as nat) && #[trigger] eaten(r3, r4, s);
    proof {
        assert forall|s: Seq<u8>, h: SHead| #[trigger] offers_head(r0, s, h) && is_head(s, h) implies (!seg_of(header_byte) || num_add_bytes + read_size <= u32::MAX)
            by { lemma_stage4(r3, r4, header_byte, num_add_bytes as nat, s3, read_size as nat, s, h); }
    } /*-*/
    let output_size = if format.is_segregated(){
        match num_add_bytes.checked_add(read_size){
            Some(size) => size,
            None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Section output size does not fit in a u32")),
        }
    }else{
        read_size
    };
    /*+*/ proof {
        let h = SectionHeader { compression_algo, format, more_sections, num_operations, num_add_bytes, output_size };
        lemma_head_done(r0, r1, r2, r3, r4, header_byte, s1, s2, s3, read_size as nat, shead(h));
    } /*-*/

    Ok(SectionHeader {
        compression_algo,
        format,
        more_sections,
        num_operations,
        num_add_bytes,
        output_size,
    })
}
//@end

//@item smdiff-reader/src/lib.rs enum OpType
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
enum OpType{
    Copy{src:CopySrc},
    Add,
    Run
}
//@end
//@item smdiff-reader/src/lib.rs struct OpByte
struct OpByte{
    op:OpType,
    size:Size
}
//@end
pub open spec fn type_flag(t: OpType) -> u8 {
    match t { OpType::Copy { src } => if src is Dict { 0u8 } else { 0x40u8 }, OpType::Add => 0x80u8, OpType::Run => 0xC0u8 }
}

//@item smdiff-reader/src/lib.rs fn read_op_byte
fn read_op_byte<R: std::io::Read>(reader: &mut R) -> /*+*/ (r: /*-*/ std::io::Result<OpByte> /*+*/)
    ensures same_stream(*old(reader), *final(reader)),
        match r {
            Ok(o) => exists|b: u8| #[trigger] eaten(*old(reader), *final(reader), seq![b]) && type_flag(o.op) == b - b % 64 && o.size == size_class((b % 64) as u16),
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>| s.len() >= 1 ==> !#[trigger] offers(*old(reader), s),
        },
/*-*/ {
    let byte = read_u8(reader)?;
    /*+*/ proof { lemma_byte_bits(byte); } /*-*/
    let size_indicator = byte & SIZE_MASK;
    let op_type = byte & OP_MASK;

    let size = size_routine(size_indicator as u16);
    match op_type {
        COPY_D => Ok(OpByte{op:OpType::Copy { src: CopySrc::Dict },size}),
        COPY_O => Ok(OpByte{op:OpType::Copy { src: CopySrc::Output },size}),
        ADD => Ok(OpByte{op:OpType::Add,size}),
        RUN => Ok(OpByte{op:OpType::Run,size}),
        _ => Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Invalid op type")),
    }
}
//@end

/// what is still to be read of an offered operation after its first byte b
pub open spec fn after_byte<R: std::io::Read>(r1: R, b: u8, s: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool) -> bool {
    &&& sflag(o) == b - b % 64
    &&& offers(r1, s.skip(1)) && s.len() >= 2
    &&& 1 <= b % 64 <= 62 ==> slen(o) == b % 64 && is_tail(s.skip(1), o, base_of(o, d, oo), inter)
    &&& b % 64 == 63 ==> slen(o) == s[1] + 62 && is_tail(s.skip(2), o, base_of(o, d, oo), inter) && !(o is Run)
    &&& b % 64 == 0 ==> s.len() >= 3 && s.subrange(1, 3) == le16(slen(o) as u16) && slen(o) <= 65535 && is_tail(s.skip(3), o, base_of(o, d, oo), inter) && !(o is Run)
}
/// what is still to be read after the size: the tail t of an operation of n bytes
pub open spec fn after_size<R: std::io::Read>(r: R, f: u8, n: u16, t: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool) -> bool {
    offers(r, t) && sflag(o) == f && slen(o) == n && is_tail(t, o, base_of(o, d, oo), inter)
}
pub open spec fn after_size_e<R: std::io::Read>(r: R, f: u8, n: u16, o: SOp, d: u64, oo: u64, inter: bool) -> bool {
    exists|t: Seq<u8>| #[trigger] after_size(r, f, n, t, o, d, oo, inter)
}
/// bytes of the size field after the op byte
pub open spec fn size_rest(b: u8, n: u16, z: Seq<u8>) -> bool {
    ||| 1 <= b % 64 <= 62 && z.len() == 0 && n == b % 64
    ||| b % 64 == 63 && z.len() == 1 && n == z[0] + 62
    ||| b % 64 == 0 && z == le16(n)
}
proof fn lemma_after_size<R: std::io::Read>(r0: R, r1: R, r2: R, b: u8, z: Seq<u8>, n: u16, s: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool)
    requires eaten(r0, r1, seq![b]), eaten(r1, r2, z), size_rest(b, n, z), offers(r0, s), is_op(s, o, d, oo, inter)
    ensures after_size_e(r2, (b - b % 64) as u8, n, o, d, oo, inter)
{
    lemma_offered_op(r0, r1, b, s, o, d, oo, inter);
    let t = s.skip(1);
    lemma_offers_prefix(r1, t);
    lemma_eaten_prefix(r1, r2, z);
    assert(z =~= t.take(z.len() as int)) by {
        assert(z.len() <= t.len());
        assert(z =~= rest(r1).take(z.len() as int));
    }
    lemma_offers_skip(r1, r2, z, t);
    let u = t.skip(z.len() as int);
    if z.len() == 0 { assert(u =~= s.skip(1)); }
    if z.len() == 1 { assert(u =~= s.skip(2)); assert(z[0] == s[1]); }
    if z.len() == 2 {
        assert(u =~= s.skip(3)); assert(z =~= s.subrange(1, 3));
        c04_u16_roundtrip(n, slen(o) as u16);
    }
    assert(after_size(r2, (b - b % 64) as u8, n, u, o, d, oo, inter));
}
proof fn lemma_size_read(b: u8, n: u16, z: Seq<u8>)
    requires size_rest(b, n, z), b - b % 64 == 0xC0 ==> 1 <= b % 64 <= 62
    ensures is_size(seq![b] + z, (b - b % 64) as u8, n as nat)
{
    if b % 64 == 63 { assert(seq![b] + z =~= seq![((b - b % 64) as u8 + 63) as u8, (n - 62) as u8]); }
    else if b % 64 == 0 { assert(seq![b] + z =~= seq![(b - b % 64) as u8] + le16(n)); }
    else { assert(seq![b] + z =~= seq![((b - b % 64) as u8 + n) as u8]); }
}
proof fn lemma_op_done<R: std::io::Read>(r0: R, r1: R, r2: R, r3: R, b: u8, z: Seq<u8>, n: u16, t: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool)
    requires eaten(r0, r1, seq![b]), eaten(r1, r2, z), eaten(r2, r3, t), size_rest(b, n, z), b - b % 64 == 0xC0 ==> 1 <= b % 64 <= 62,
        sflag(o) == b - b % 64, slen(o) == n, is_tail(t, o, base_of(o, d, oo), inter)
    ensures exists|s: Seq<u8>| is_op(s, o, d, oo, inter) && #[trigger] eaten(r0, r3, s)
{
    lemma_size_read(b, n, z);
    lemma_eaten_join(r0, r1, r2, seq![b], z);
    lemma_eaten_join(r0, r2, r3, seq![b] + z, t);
    lemma_op_intro(seq![b] + z, t, o, d, oo, inter);
}

proof fn lemma_next_byte<R: std::io::Read>(r0: R, r1: R, b: u8, s: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool)
    requires eaten(r0, r1, seq![b]), offers(r0, s), is_op(s, o, d, oo, inter)
    ensures b % 64 == 63 ==> exists|t: Seq<u8>| t.len() >= 1 && #[trigger] offers(r1, t),
        b % 64 == 0 ==> exists|t: Seq<u8>| t.len() >= 2 && #[trigger] offers(r1, t),
        b - b % 64 == 0xC0 ==> 1 <= b % 64 <= 62,
{
    lemma_offered_op(r0, r1, b, s, o, d, oo, inter);
    if b % 64 == 63 || b % 64 == 0 { assert(offers(r1, s.skip(1))); }
}
proof fn lemma_next_tail<R: std::io::Read>(r: R, f: u8, n: u16, o: SOp, d: u64, oo: u64, inter: bool)
    requires after_size_e(r, f, n, o, d, oo, inter)
    ensures f == 0 || f == 0x40 ==> exists|t: Seq<u8>| uwf(t) && t.len() <= 10 && uval(t) <= u64::MAX && #[trigger] offers(r, t),
        f == 0x80 && inter ==> 0 <= r.rpos() && r.rpos() + n <= r.rdata().len(),
        f == 0xC0 ==> exists|t: Seq<u8>| t.len() >= 1 && #[trigger] offers(r, t),
{
    let t = choose|t: Seq<u8>| #[trigger] after_size(r, f, n, t, o, d, oo, inter);
    assert(offers(r, t));
}
proof fn lemma_copy_done<R: std::io::Read>(r0: R, r1: R, r2: R, r3: R, b: u8, z: Seq<u8>, n: u16, i: i64, dict: bool, d: u64, oo: u64, inter: bool)
    requires eaten(r0, r1, seq![b]), eaten(r1, r2, z), size_rest(b, n, z), b - b % 64 == (if dict { 0u8 } else { 0x40u8 }),
        exists|t: Seq<u8>| uwf(t) && t.len() <= 10 && uval(t) == zz(i) && #[trigger] eaten(r2, r3, t)
    ensures exists|s: Seq<u8>| is_op(s, SOp::Copy { dict, addr: addr_apply(if dict { d } else { oo }, i), len: n }, d, oo, inter) && #[trigger] eaten(r0, r3, s)
{
    let t = choose|t: Seq<u8>| uwf(t) && t.len() <= 10 && uval(t) == zz(i) && #[trigger] eaten(r2, r3, t);
    lemma_zz(i);
    lemma_op_done(r0, r1, r2, r3, b, z, n, t, SOp::Copy { dict, addr: addr_apply(if dict { d } else { oo }, i), len: n }, d, oo, inter);
}

//@item smdiff-reader/src/lib.rs fn read_op
fn read_op<R: std::io::Read>(reader: &mut R,cur_d_addr:&mut u64,cur_o_addr:&mut u64,is_interleaved:bool) -> /*+*/ (r: /*-*/ std::io::Result<Op> /*+*/)
    ensures same_stream(*old(reader), *final(reader)),
        match r {
            Ok(op) => {
                &&& op_ok(sop(op))
                &&& exists|s: Seq<u8>| is_op(s, sop(op), *old(cur_d_addr), *old(cur_o_addr), is_interleaved) && #[trigger] eaten(*old(reader), *final(reader), s)
                &&& *final(cur_d_addr) == (match sop(op) { SOp::Copy { dict, addr, .. } => if dict { addr } else { *old(cur_d_addr) }, _ => *old(cur_d_addr) })
                &&& *final(cur_o_addr) == (match sop(op) { SOp::Copy { dict, addr, .. } => if dict { *old(cur_o_addr) } else { addr }, _ => *old(cur_o_addr) })
            },
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>, o: SOp| is_op(s, o, *old(cur_d_addr), *old(cur_o_addr), is_interleaved) ==> !#[trigger] offers_op(*old(reader), s, o),
        },
/*-*/ {
    /*+*/ hide(is_op); hide(is_size); hide(after_size_e); hide(after_size); hide(is_tail); hide(uwf); hide(uval); hide(eaten); hide(offers); hide(size_rest); hide(zz); hide(unzz); hide(addr_apply);
    let ghost r0 = *reader; let ghost d = *cur_d_addr; let ghost oo = *cur_o_addr; let ghost inter = is_interleaved;
    proof { assert forall|s: Seq<u8>, o: SOp| #[trigger] offers_op(r0, s, o) && is_op(s, o, d, oo, inter) implies offers(r0, s) && s.len() >= 1 by { reveal(is_op); } } /*-*/
    let OpByte { op, size } = read_op_byte(reader)?;
    /*+*/ let ghost r1 = *reader; let ghost b = choose|b: u8| #[trigger] eaten(r0, r1, seq![b]) && type_flag(op) == b - b % 64 && size == size_class((b % 64) as u16);
    let ghost f = type_flag(op);
    proof {
        assert forall|s: Seq<u8>, o: SOp| #[trigger] offers_op(r0, s, o) && is_op(s, o, d, oo, inter) implies
            (b % 64 != 63 || exists|t: Seq<u8>| t.len() >= 1 && #[trigger] offers(r1, t)) && (b % 64 != 0 || exists|t: Seq<u8>| t.len() >= 2 && #[trigger] offers(r1, t)) && (f != 0xC0 || 1 <= b % 64 <= 62)
            by { lemma_next_byte(r0, r1, b, s, o, d, oo, inter); }
    } /*-*/
    if matches!(op, OpType::Run) && !matches!(size, Size::Done(_)) {
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Invalid size for RUN operation"));
    }
    let size = match size {
        Size::Done(size) => size as u16,
        Size::U8And62 => read_u8(reader)? as u16 + 62,
        Size::U16 => read_u16(reader)?,
    };
    /*+*/ let ghost r2 = *reader;
    let ghost z = if b % 64 == 0 { le16(size) } else if b % 64 == 63 { seq![(size - 62) as u8] } else { Seq::<u8>::empty() };
    proof {
        if z.len() == 0 { reveal(eaten); lemma_eaten_none(r1); }
        assert(size_rest(b, size, z)) by { reveal(size_rest); }
        assert(eaten(r1, r2, z));
        assert forall|s: Seq<u8>, o: SOp| #[trigger] offers_op(r0, s, o) && is_op(s, o, d, oo, inter) implies
            ((f != 0 && f != 0x40) || exists|t: Seq<u8>| uwf(t) && t.len() <= 10 && uval(t) <= u64::MAX && #[trigger] offers(r2, t))
            && (f != 0x80 || !inter || 0 <= r2.rpos() && r2.rpos() + size <= r2.rdata().len())
            && (f != 0xC0 || exists|t: Seq<u8>| t.len() >= 1 && #[trigger] offers(r2, t))
        by {
            lemma_after_size(r0, r1, r2, b, z, size, s, o, d, oo, inter);
            lemma_next_tail(r2, f, size, o, d, oo, inter);
        }
    } /*-*/
    let op = match op {
        OpType::Copy { src } => {
            let addr = read_i_varint(reader)?;
            /*+*/ proof { lemma_copy_done(r0, r1, r2, *reader, b, z, size, addr, src is Dict, d, oo, inter); } /*-*/
            let len = size;
            let addr = if src == CopySrc::Dict {
                *cur_d_addr = diff_addresses_to_u64(*cur_d_addr, addr);
                *cur_d_addr
            } else {
                *cur_o_addr = diff_addresses_to_u64(*cur_o_addr, addr);
                *cur_o_addr
            };
            Op::Copy(Copy{src,addr,len})
        },
        OpType::Add => {
            let mut bytes = vec![0u8;size as usize];
            if is_interleaved{
                reader.read_exact(&mut bytes)?;
            }
            /*+*/ proof {
                reveal(eaten); reveal(is_tail);
                let t = if inter { bytes@ } else { Seq::<u8>::empty() };
                lemma_op_done(r0, r1, r2, *reader, b, z, size, t, SOp::Add { bytes: bytes@ }, d, oo, inter);
            } /*-*/
            Op::Add(Add{bytes})
        },
        OpType::Run => {
            Op::Run(Run{len:size as u8,byte:read_u8(reader)?})
        }
    };
    /*+*/ proof {
        if op is Run {
            reveal(is_tail);
            let t = seq![op->Run_0.byte];
            lemma_op_done(r0, r1, r2, *reader, b, z, size, t, sop(op), d, oo, inter);
        }
    } /*-*/
    Ok(op)
}
//@end

/// a vector can not be longer than the address space (std: at most isize::MAX bytes; Op is not zero sized)
#[verifier::external_body]
proof fn ax_ops_len(v: Vec<Op>)
    ensures v@.len() <= isize::MAX
{ }

/// the state while operations are read one after another: s was read from r0 on and encodes exactly cur
pub open spec fn ops_read<R: std::io::Read>(r0: R, r: R, s: Seq<u8>, cur: Seq<SOp>, d: u64, oo: u64, inter: bool) -> bool {
    is_ops(s, cur, inter) && eaten(r0, r, s) && d == last_addr(cur, true) && oo == last_addr(cur, false) && ops_ok(cur)
}
/// some body with the announced number of operations is offered at r0
pub open spec fn offers_body<R: std::io::Read>(r0: R, s: Seq<u8>, ops: Seq<SOp>, inter: bool) -> bool {
    offers(r0, s) && is_body(s, ops, inter)
}
pub open spec fn body_totals(h: SHead, ops: Seq<SOp>) -> bool {
    h.n == ops.len() && h.size == total(ops) && (h.seg ==> h.adds == adds(ops).len())
}
proof fn lemma_ops_read_init<R: std::io::Read>(r0: R, inter: bool)
    requires 0 <= r0.rpos()
    ensures ops_read(r0, r0, Seq::empty(), Seq::empty(), 0, 0, inter)
{ }
proof fn lemma_ops_read_step<R: std::io::Read>(r0: R, r: R, r1: R, s: Seq<u8>, cur: Seq<SOp>, d: u64, oo: u64, t: Seq<u8>, o: SOp, inter: bool)
    requires ops_read(r0, r, s, cur, d, oo, inter), is_op(t, o, d, oo, inter), eaten(r, r1, t), op_ok(o)
    ensures ops_read(r0, r1, s + t, cur.push(o), last_addr(cur.push(o), true), last_addr(cur.push(o), false), inter),
        total(cur.push(o)) == total(cur) + slen(o), adds(cur.push(o)).len() == adds(cur).len() + sadd(o).len(), slen(o) <= 65535,
        last_addr(cur.push(o), true) == (match o { SOp::Copy { dict, addr, .. } => if dict { addr } else { d }, _ => d }),
        last_addr(cur.push(o), false) == (match o { SOp::Copy { dict, addr, .. } => if dict { oo } else { addr }, _ => oo }),
{
    lemma_ops_push(s, cur, t, o, inter);
    lemma_eaten_join(r0, r, r1, s, t);
    lemma_total_push(cur, o);
    assert forall|i: int| 0 <= i < cur.push(o).len() implies op_ok(#[trigger] cur.push(o)[i]) by { if i < cur.len() { assert(op_ok(cur[i])); } }
}
/// reading the next operation can not fail if a body with more operations is offered
proof fn lemma_ops_read_more<R: std::io::Read>(r0: R, r: R, s: Seq<u8>, cur: Seq<SOp>, d: u64, oo: u64, inter: bool, t: Seq<u8>, ops: Seq<SOp>)
    requires ops_read(r0, r, s, cur, d, oo, inter), offers_body(r0, t, ops, inter), cur.len() < ops.len()
    ensures exists|u: Seq<u8>, o: SOp| is_op(u, o, d, oo, inter) && #[trigger] offers_op(r, u, o)
{
    let k = choose|k: int| is_body_at(t, k, ops, inter);
    lemma_offers_take(r0, t, k);
    let u = lemma_next_op(r0, r, s, cur, t.take(k), ops, inter);
    assert(offers_op(r, u, ops[cur.len() as int]));
}
/// all operations were read: an offered body has operations of the same kinds and sizes
proof fn lemma_ops_read_all<R: std::io::Read>(r0: R, r: R, s: Seq<u8>, cur: Seq<SOp>, d: u64, oo: u64, inter: bool, t: Seq<u8>, ops: Seq<SOp>)
    requires ops_read(r0, r, s, cur, d, oo, inter), offers_body(r0, t, ops, inter), cur.len() == ops.len()
    ensures total(cur) == total(ops), adds(cur).len() == adds(ops).len(), !inter ==> 0 <= r.rpos() && r.rpos() + adds(cur).len() <= r.rdata().len(),
        s.len() <= t.len()
{
    let k = choose|k: int| is_body_at(t, k, ops, inter);
    lemma_offers_take(r0, t, k);
    lemma_offers_prefix(r0, t.take(k));
    lemma_eaten_prefix(r0, r, s);
    lemma_ops_unique(s, t.take(k), rest(r0), cur, ops, inter);
    lemma_alike_adds(cur, ops, inter);
    assert(t.take(k).len() == k);
    lemma_offers_skip(r0, r, s, t);
    if !inter { assert(t.skip(k).len() == adds(ops).len()); }
}
/// while the literal bytes are read in: the first a operations are final, x has been read
pub open spec fn adds_read<R: std::io::Read>(ra: R, r: R, base: Seq<SOp>, cur: Seq<SOp>, q: int, m: int) -> bool {
    &&& cur.len() == base.len() && 0 <= q <= adds_at(base).len()
    &&& forall|i: int| 0 <= i < cur.len() ==> alike(#[trigger] base[i], cur[i], false)
    &&& 0 <= m <= cur.len() && m == (if q < adds_at(base).len() { adds_at(base)[q] } else { cur.len() as int })
    &&& eaten(ra, r, adds(cur.take(m)))
}
proof fn lemma_adds_at_zero(ops: Seq<SOp>)
    requires adds_at(ops).len() == 0
    ensures adds(ops) == Seq::<u8>::empty()
    decreases ops.len()
{
    if ops.len() > 0 { lemma_adds_at_zero(ops.drop_last()); assert(adds(ops) =~= Seq::<u8>::empty()); }
}
proof fn lemma_adds_read_init<R: std::io::Read>(ra: R, base: Seq<SOp>) -> (m: int)
    requires 0 <= ra.rpos()
    ensures adds_read(ra, ra, base, base, 0, m)
{
    if adds_at(base).len() > 0 {
        lemma_adds_at(base, 0);
        lemma_adds_at_zero(base.take(adds_at(base)[0]));
        assert forall|i: int| 0 <= i < base.len() implies alike(#[trigger] base[i], base[i], false) by {}
        adds_at(base)[0]
    } else {
        lemma_adds_at_zero(base);
        assert(base.take(base.len() as int) =~= base);
        base.len() as int
    }
}
/// the q-th add got its bytes
proof fn lemma_adds_read_step<R: std::io::Read>(ra: R, r: R, r1: R, base: Seq<SOp>, cur: Seq<SOp>, q: int, m: int, b: Seq<u8>) -> (m1: int)
    requires adds_read(ra, r, base, cur, q, m), q < adds_at(base).len(), b.len() == slen(base[m]), eaten(r, r1, b)
    ensures adds_read(ra, r1, base, cur.update(m, SOp::Add { bytes: b }), q + 1, m1)
{
    let nx = cur.update(m, SOp::Add { bytes: b });
    lemma_adds_at(base, q);
    assert(alike(base[m], cur[m], false));
    assert forall|i: int| 0 <= i < nx.len() implies alike(#[trigger] base[i], nx[i], false) by { assert(alike(base[i], cur[i], false)); }
    lemma_adds_at_alike(base, nx);
    assert(nx.take(m) =~= cur.take(m));
    assert(nx.take(m + 1).drop_last() =~= cur.take(m));
    assert(adds(nx.take(m + 1)) == adds(cur.take(m)) + b);
    lemma_eaten_join(ra, r, r1, adds(cur.take(m)), b);
    lemma_adds_at(nx, q);
    let m1 = if q + 1 < adds_at(base).len() { adds_at(base)[q + 1] } else { cur.len() as int };
    if q + 1 < adds_at(base).len() {
        lemma_adds_at(nx, q + 1);
        lemma_adds_at_lt(nx, q);
    } else {
        assert(nx.take(m1) =~= nx);
        lemma_adds_at_mono(nx, m + 1, m1);
    }
    lemma_no_adds(nx, m + 1, m1);
    m1
}
proof fn lemma_adds_at_lt(ops: Seq<SOp>, q: int)
    requires 0 <= q, q + 1 < adds_at(ops).len()
    ensures adds_at(ops)[q] < adds_at(ops)[q + 1]
    decreases ops.len()
{
    let p = ops.drop_last();
    if ops.last() is Add && q + 1 == adds_at(ops).len() - 1 { lemma_adds_at(p, q); assert(adds_at(p)[q] == adds_at(ops)[q]); }
    else { lemma_adds_at_lt(p, q); assert(adds_at(p)[q] == adds_at(ops)[q] && adds_at(p)[q + 1] == adds_at(ops)[q + 1]); }
}
proof fn lemma_adds_prefix_len(ops: Seq<SOp>, m: int)
    requires 0 <= m <= ops.len()
    ensures adds(ops.take(m)).len() <= adds(ops).len()
    decreases ops.len() - m
{
    if m < ops.len() {
        lemma_adds_prefix_len(ops, m + 1);
        assert(ops.take(m + 1).drop_last() =~= ops.take(m));
    } else { assert(ops.take(m) =~= ops); }
}
/// the next literal is there if all literals are
proof fn lemma_adds_read_more<R: std::io::Read>(ra: R, r: R, base: Seq<SOp>, cur: Seq<SOp>, q: int, m: int)
    requires adds_read(ra, r, base, cur, q, m), q < adds_at(base).len(), 0 <= ra.rpos(), ra.rpos() + adds(base).len() <= ra.rdata().len()
    ensures 0 <= r.rpos(), r.rpos() + slen(base[m]) <= r.rdata().len()
{
    lemma_adds_at(base, q);
    lemma_alike_adds(base, cur, false);
    assert(alike(base[m], cur[m], false));
    assert(cur.take(m + 1).drop_last() =~= cur.take(m));
    lemma_adds_prefix_len(cur, m + 1);
}
proof fn lemma_adds_read_all<R: std::io::Read>(r0: R, ra: R, r: R, s: Seq<u8>, base: Seq<SOp>, d: u64, oo: u64, cur: Seq<SOp>, q: int, m: int)
    requires adds_read(ra, r, base, cur, q, m), q == adds_at(base).len(), ops_read(r0, ra, s, base, d, oo, false)
    ensures total(cur) == total(base), adds(cur).len() == adds(base).len(), ops_ok(cur), exists|z: Seq<u8>| is_body(z, cur, false) && #[trigger] eaten(r0, r, z)
{
    assert(cur.take(m) =~= cur);
    lemma_alike_adds(base, cur, false);
    lemma_alike_ops(s, base, cur);
    lemma_body_intro(s, cur, false);
    lemma_eaten_join(r0, ra, r, s, adds(cur));
    assert forall|i: int| 0 <= i < cur.len() implies op_ok(#[trigger] cur[i]) by { assert(alike(base[i], cur[i], false)); assert(op_ok(base[i])); }
}
proof fn lemma_total_bound2(ops: Seq<SOp>)
    requires ops_ok(ops), ops.len() <= u32::MAX
    ensures total(ops) <= 0xffff_ffff * 65535, adds(ops).len() <= total(ops)
{
    lemma_total_bound(ops);
    assert(ops.len() * 65535 <= 0xffff_ffff * 65535) by (nonlinear_arith) requires ops.len() <= 0xffff_ffff;
}
proof fn lemma_sops_tail(buf: Seq<Op>, off: int, op: Op)
    requires 0 <= off <= buf.len()
    ensures sops(buf.push(op).skip(off)) == sops(buf.skip(off)).push(sop(op)), buf.push(op).take(off) == buf.take(off)
{
    assert(sops(buf.push(op).skip(off)) =~= sops(buf.skip(off)).push(sop(op)));
    assert(buf.push(op).take(off) =~= buf.take(off));
}
proof fn lemma_sops_update(buf: Seq<Op>, off: int, m: int, op: Op)
    requires 0 <= off <= buf.len(), 0 <= m < buf.len() - off
    ensures sops(buf.update(off + m, op).skip(off)) == sops(buf.skip(off)).update(m, sop(op)), buf.update(off + m, op).take(off) == buf.take(off)
{
    assert(sops(buf.update(off + m, op).skip(off)) =~= sops(buf.skip(off)).update(m, sop(op)));
    assert(buf.update(off + m, op).take(off) =~= buf.take(off));
}

/// the whole state while the literal bytes are filled in
pub open spec fn filling<R: std::io::Read>(ra: R, r: R, base: Seq<SOp>, buf: Seq<Op>, b0: Seq<Op>, q: int, m: int, idxs: Seq<usize>) -> bool {
    let off = b0.len() as int;
    &&& buf.len() == off + base.len() && buf.take(off) == b0
    &&& adds_read(ra, r, base, sops(buf.skip(off)), q, m)
    &&& idxs.len() == adds_at(base).len() && forall|j: int| 0 <= j < idxs.len() ==> #[trigger] idxs[j] == off + adds_at(base)[j]
}
proof fn lemma_filling<R: std::io::Read>(ra: R, r: R, base: Seq<SOp>, buf: Seq<Op>, b0: Seq<Op>, q: int, m: int, idxs: Seq<usize>)
    requires filling(ra, r, base, buf, b0, q, m, idxs), 0 <= q < idxs.len()
    ensures idxs[q] == b0.len() + m, 0 <= m < base.len(), buf.len() == b0.len() + base.len(), buf[b0.len() + m] is Add, buf[b0.len() + m]->Add_0.bytes@.len() == slen(base[m]),
        0 <= r.rpos(), 0 <= ra.rpos() && ra.rpos() + adds(base).len() <= ra.rdata().len() ==> r.rpos() + slen(base[m]) <= r.rdata().len()
{
    lemma_adds_at(base, q);
    let cur = sops(buf.skip(b0.len() as int));
    assert(alike(base[m], cur[m], false));
    assert(cur[m] == sop(buf[b0.len() + m]));
    if 0 <= ra.rpos() && ra.rpos() + adds(base).len() <= ra.rdata().len() { lemma_adds_read_more(ra, r, base, cur, q, m); }
}
proof fn lemma_filled<R: std::io::Read>(ra: R, r: R, r1: R, base: Seq<SOp>, buf: Seq<Op>, b0: Seq<Op>, q: int, m: int, idxs: Seq<usize>, op1: Op) -> (m1: int)
    requires filling(ra, r, base, buf, b0, q, m, idxs), 0 <= q < idxs.len(), op1 is Add, op1->Add_0.bytes@.len() == slen(base[m]), eaten(r, r1, op1->Add_0.bytes@)
    ensures filling(ra, r1, base, buf.update(b0.len() + m, op1), b0, q + 1, m1, idxs)
{
    lemma_filling(ra, r, base, buf, b0, q, m, idxs);
    let off = b0.len() as int;
    lemma_sops_update(buf, off, m, op1);
    lemma_adds_read_step(ra, r, r1, base, sops(buf.skip(off)), q, m, op1->Add_0.bytes@)
}

/// operations are only kept in memory for bytes that were there to be read: one byte at least per operation
pub open spec fn few<R: std::io::Read>(r0: R, off: int, held: int) -> bool { held >= off && (held == off || held - off <= r0.rdata().len() - r0.rpos()) }
proof fn lemma_ops_take_bytes(s: Seq<u8>, ops: Seq<SOp>, inter: bool)
    requires is_ops(s, ops, inter)
    ensures ops.len() <= s.len()
    decreases ops.len()
{
    if ops.len() > 0 {
        let k = choose|k: int| 0 <= k <= s.len() && is_ops(#[trigger] s.take(k), ops.drop_last(), inter)
            && is_op(s.skip(k), ops.last(), last_addr(ops.drop_last(), true), last_addr(ops.drop_last(), false), inter);
        lemma_ops_take_bytes(s.take(k), ops.drop_last(), inter);
    }
}
proof fn lemma_few<R: std::io::Read>(r0: R, r: R, s: Seq<u8>, cur: Seq<SOp>, d: u64, oo: u64, inter: bool, off: int, held: int)
    requires ops_read(r0, r, s, cur, d, oo, inter), held == off + cur.len()
    ensures few(r0, off, held)
{ reveal(ops_read); reveal(eaten); lemma_ops_take_bytes(s, cur, inter); }

//@item smdiff-reader/src/lib.rs fn read_ops_no_comp
fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHeader,op_buffer:&mut Vec<Op>)-> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures same_stream(*old(reader), *final(reader)), few(*old(reader), (*old(op_buffer))@.len() as int, (*final(op_buffer))@.len() as int),
        match r {
            Ok(_) => {
                let off = (*old(op_buffer))@.len() as int;
                let ops = sops((*final(op_buffer))@.skip(off));
                &&& (*final(header)).format == (*old(header)).format && (*final(header)).compression_algo == (*old(header)).compression_algo
                    && (*final(header)).more_sections == (*old(header)).more_sections && (*final(header)).num_operations == (*old(header)).num_operations
                    && (*final(header)).output_size == (*old(header)).output_size && ((*old(header)).format is Segregated ==> (*final(header)).num_add_bytes == (*old(header)).num_add_bytes)
                &&& off <= (*final(op_buffer))@.len() && (*final(op_buffer))@.take(off) == (*old(op_buffer))@
                &&& totals_ok(shead(*final(header)), ops) && ops_ok(ops)
                &&& exists|s: Seq<u8>| is_body(s, ops, (*old(header)).format is Interleaved) && #[trigger] eaten(*old(reader), *final(reader), s)
            },
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>, ops: Seq<SOp>| body_totals(shead(*old(header)), ops) ==> !#[trigger] offers_body(*old(reader), s, ops, (*old(header)).format is Interleaved),
        },
/*-*/ {
    /*+*/ hide(is_ops); hide(is_op); hide(eaten); hide(offers); hide(total); hide(adds); hide(last_addr); hide(adds_at); hide(offers_body); hide(ops_read); hide(adds_read); hide(alike); hide(ops_ok);
    hide(is_body); hide(filling); hide(few);
    let ghost r0 = *reader; let ghost h0 = shead(*header); let ghost inter = header.format is Interleaved; let ghost off = op_buffer@.len() as int; let ghost b0 = op_buffer@;
    let ghost mut sx = Seq::<u8>::empty(); let ghost rel = (*reader).rreliable(); let ghost n = header.num_operations; let ghost size = header.output_size; let ghost nadd = header.num_add_bytes;
    proof {
        ax_rpos(r0);
        lemma_ops_read_init(r0, inter); lemma_few(r0, r0, sx, Seq::empty(), 0, 0, inter, off, off);
        ax_ops_len(*op_buffer);
        assert(sops(b0.skip(off)) =~= Seq::<SOp>::empty());
        assert(b0.take(off) =~= b0);
        assert(total(Seq::<SOp>::empty()) == 0 && adds(Seq::<SOp>::empty()).len() == 0 && adds_at(Seq::<SOp>::empty()) =~= Seq::<int>::empty()) by { reveal(total); reveal(adds); reveal(adds_at); }
    } /*-*/
    let SectionHeader { format, num_operations, output_size, .. } = header;
    let mut cur_d_addr = 0;
    let mut cur_o_addr = 0;
    op_buffer.reserve((*num_operations as usize).min(MAX_INST_SIZE));
    match format {
        Format::Segregated => {
            let buffer_offset = op_buffer.len();
            let mut add_idxs = Vec::new();
            let mut add_size = 0u64;
            let mut check_size = 0u64;
            for i in /*+*/ it: /*-*/ 0..*num_operations
                /*+*/ invariant !inter, buffer_offset == off, off <= i64::MAX, op_buffer@.len() == off + i, op_buffer@.take(off) == b0,
                    ops_read(r0, *reader, sx, sops(op_buffer@.skip(off)), cur_d_addr, cur_o_addr, inter),
                    sops(op_buffer@.skip(off)).len() == i, check_size == total(sops(op_buffer@.skip(off))), add_size == adds(sops(op_buffer@.skip(off))).len(),
                    add_idxs@.len() == adds_at(sops(op_buffer@.skip(off))).len(), forall|j: int| 0 <= j < add_idxs@.len() ==> #[trigger] add_idxs@[j] == off + adds_at(sops(op_buffer@.skip(off)))[j],
                    same_stream(r0, *reader), rel == r0.rreliable(), r0.rpos() >= 0, off == (*old(op_buffer))@.len(), r0 == *old(reader), it.seq().len() == n, n == h0.n, h0 == shead(*old(header)), inter == ((*old(header)).format is Interleaved) /*-*/
            {
                /*+*/ let ghost cur = sops(op_buffer@.skip(off)); let ghost r1 = *reader; let ghost buf = op_buffer@; let ghost (d, oo) = (cur_d_addr, cur_o_addr);
                proof {
                    reveal(ops_read);
                    if rel { assert forall|t: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_body(r0, t, ops, inter) && ops.len() == n implies exists|u: Seq<u8>, o: SOp| is_op(u, o, d, oo, inter) && #[trigger] offers_op(r1, u, o)
                        by { lemma_ops_read_more(r0, r1, sx, cur, d, oo, inter, t, ops); } }
                    lemma_total_bound2(cur);
                    lemma_few(r0, r1, sx, cur, d, oo, inter, off, op_buffer@.len() as int);
                } /*-*/
                let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
                /*+*/ let ghost t = choose|t: Seq<u8>| is_op(t, sop(op), d, oo, inter) && #[trigger] eaten(r1, *reader, t);
                proof {
                    lemma_ops_read_step(r0, r1, *reader, sx, cur, d, oo, t, sop(op), inter);
                    sx = sx + t;
                    lemma_sops_tail(buf, off, op);
                    assert(adds_at(cur.push(sop(op))) == (if sop(op) is Add { adds_at(cur).push(cur.len() as int) } else { adds_at(cur) })) by { reveal(adds_at); assert(cur.push(sop(op)).drop_last() =~= cur); }
                } /*-*/
                let len = op.oal() as u64;
                check_size += len;
                if op.is_add(){
                    add_size += len;
                    add_idxs.push(buffer_offset+i as usize);
                }
                op_buffer.push(op);
            }
            /*+*/ let ghost base = sops(op_buffer@.skip(off)); let ghost ra = *reader;
            proof {
                lemma_few(r0, ra, sx, base, cur_d_addr, cur_o_addr, inter, off, op_buffer@.len() as int);
                assert forall|t: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_body(r0, t, ops, inter) && ops.len() == n implies total(base) == total(ops) && adds(base).len() == adds(ops).len() && 0 <= ra.rpos() && ra.rpos() + adds(base).len() <= ra.rdata().len()
                    by { lemma_ops_read_all(r0, ra, sx, base, cur_d_addr, cur_o_addr, inter, t, ops); }
            } /*-*/
            if check_size != *output_size as u64{
                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Window Header output size"));
            }
            if add_size != header.num_add_bytes as u64{
                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Window Header add bytes"));
            }
            /*+*/ proof { reveal(ops_read); assert(0 <= ra.rpos()) by { reveal(eaten); } }
            let ghost mut m = lemma_adds_read_init(ra, base); let ghost idxs = add_idxs@; proof { assert(filling(ra, ra, base, op_buffer@, b0, 0, m, idxs)) by { reveal(filling); } } /*-*/
            for i in /*+*/ it: /*-*/ add_idxs
                /*+*/ invariant filling(ra, *reader, base, op_buffer@, b0, it.index@ as int, m, idxs), it.seq() == idxs, 0 <= it.index@ <= it.seq().len(),
                    same_stream(r0, *reader), rel == r0.rreliable(), !inter, base.len() == n,
                    r0 == *old(reader), n == h0.n, h0 == shead(*old(header)), inter == ((*old(header)).format is Interleaved), off == b0.len(), off == (*old(op_buffer))@.len(), few(r0, off, off + base.len()),
                    forall|t: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_body(r0, t, ops, inter) && ops.len() == n ==> 0 <= ra.rpos() && ra.rpos() + adds(base).len() <= ra.rdata().len(),
                /*-*/
            {
                /*+*/ let ghost r1 = *reader; let ghost q = it.index@ as int; let ghost buf = op_buffer@;
                proof { lemma_filling(ra, r1, base, buf, b0, q, m, idxs); assert(i == idxs[q]); assert(off == b0.len()); } /*-*/
                let op = op_buffer.get_mut(i).unwrap();
                if let Op::Add(add) = op{
                    reader.read_exact(&mut add.bytes)?;
                }
                /*+*/ proof {
                    let op1 = op_buffer@[off + m];
                    assert(op_buffer@ =~= buf.update(off + m, op1));
                    assert(eaten(r1, *reader, op1->Add_0.bytes@)) by { reveal(eaten); }
                    m = lemma_filled(ra, r1, *reader, base, buf, b0, q, m, idxs, op1);
                } /*-*/
            }
            /*+*/ proof { reveal(filling); lemma_adds_read_all(r0, ra, *reader, sx, base, cur_d_addr, cur_o_addr, sops(op_buffer@.skip(off)), adds_at(base).len() as int, m);
                assert(0 <= (*reader).rpos()) by { reveal(eaten); } } /*-*/
            Ok(())
        },
        Format::Interleaved => {
            let mut check_size = 0u64;
            let mut add_size = 0u64;
            for _ in /*+*/ it: /*-*/ 0..*num_operations
                /*+*/ invariant inter, 0 <= off <= i64::MAX, 0 <= it.index@, op_buffer@.len() == off + it.index@, op_buffer@.take(off) == b0, 
                    ops_read(r0, *reader, sx, sops(op_buffer@.skip(off)), cur_d_addr, cur_o_addr, inter), it.seq().len() == n,
                    sops(op_buffer@.skip(off)).len() == it.index@, check_size == total(sops(op_buffer@.skip(off))), add_size == adds(sops(op_buffer@.skip(off))).len(),
                    same_stream(r0, *reader), rel == r0.rreliable(), r0.rpos() >= 0, off == (*old(op_buffer))@.len(), r0 == *old(reader), it.seq().len() == n, n == h0.n, h0 == shead(*old(header)), inter == ((*old(header)).format is Interleaved) /*-*/
            {
                /*+*/ let ghost cur = sops(op_buffer@.skip(off)); let ghost r1 = *reader; let ghost buf = op_buffer@; let ghost (d, oo) = (cur_d_addr, cur_o_addr);
                proof {
                    reveal(ops_read);
                    if rel { assert forall|t: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_body(r0, t, ops, inter) && ops.len() == n implies exists|u: Seq<u8>, o: SOp| is_op(u, o, d, oo, inter) && #[trigger] offers_op(r1, u, o)
                        by { lemma_ops_read_more(r0, r1, sx, cur, d, oo, inter, t, ops); } }
                    lemma_total_bound2(cur);
                    lemma_few(r0, r1, sx, cur, d, oo, inter, off, op_buffer@.len() as int);
                } /*-*/
                let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
                /*+*/ let ghost t = choose|t: Seq<u8>| is_op(t, sop(op), d, oo, inter) && #[trigger] eaten(r1, *reader, t);
                proof {
                    lemma_ops_read_step(r0, r1, *reader, sx, cur, d, oo, t, sop(op), inter);
                    sx = sx + t;
                    lemma_sops_tail(buf, off, op);
                } /*-*/
                let len = op.oal() as u64;
                check_size += len;
                if op.is_add(){
                    add_size += len;
                }
                op_buffer.push(op);
            }
            /*+*/ let ghost base = sops(op_buffer@.skip(off)); let ghost ra = *reader;
            proof {
                lemma_few(r0, ra, sx, base, cur_d_addr, cur_o_addr, inter, off, op_buffer@.len() as int);
                assert forall|t: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_body(r0, t, ops, inter) && ops.len() == n implies total(base) == total(ops)
                    by { lemma_ops_read_all(r0, ra, sx, base, cur_d_addr, cur_o_addr, inter, t, ops); }
                reveal(ops_read);
                lemma_total_bound2(base);
                lemma_body_intro(sx, base, true);
                assert(sx + Seq::<u8>::empty() =~= sx);
                assert(0 <= ra.rpos()) by { reveal(eaten); }
            } /*-*/
            if check_size != *output_size as u64{
                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Window Header output size"));
            }
            header.num_add_bytes = add_size as u32;
            Ok(())
        }
    }
}
//@end


/// some section is offered
pub open spec fn offers_section<R: std::io::Read>(r: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>) -> bool { offers(r, s) && is_section(s, h, ops) }

proof fn lemma_section_done<R: std::io::Read>(r0: R, r1: R, r2: R, s: Seq<u8>, t: Seq<u8>, h0: SHead, h: SHead, ops: Seq<SOp>)
    requires eaten(r0, r1, s), eaten(r1, r2, t), is_head(s, h0), is_body(t, ops, !h.seg), totals_ok(h, ops), h0.algo == h.algo, h0.seg == h.seg, h0.more == h.more,
        h0.n == h.n, h0.size == h.size, h.seg ==> h0.adds == h.adds
    ensures exists|z: Seq<u8>| is_section(z, h, ops) && #[trigger] eaten(r0, r2, z) && offers(r0, z)
{
    let (a, b) = choose|a: int, b: int| is_head_at(s, a, b, h0);
    lemma_adds_bound(ops);
    assert(is_head_at(s, a, b, h));
    lemma_eaten_join(r0, r1, r2, s, t);
    let z = s + t;
    assert(z.len() >= 1);
    assert(offers(r0, z));
    assert(z.take(s.len() as int) =~= s);
    assert(z.skip(s.len() as int) =~= t);
    assert(is_section_at(z, s.len() as int, h, ops));
}
proof fn lemma_section_head<R: std::io::Read>(r0: R, z: Seq<u8>, h: SHead, ops: Seq<SOp>)
    requires offers_section(r0, z, h, ops)
    ensures exists|s: Seq<u8>| is_head(s, h) && #[trigger] offers_head(r0, s, h)
{
    let k = choose|k: int| is_section_at(z, k, h, ops);
    lemma_offers_take(r0, z, k);
    assert(offers_head(r0, z.take(k), h));
}
proof fn lemma_section_body<R: std::io::Read>(r0: R, r1: R, s: Seq<u8>, h0: SHead, z: Seq<u8>, h: SHead, ops: Seq<SOp>) -> (t: Seq<u8>)
    requires offers_section(r0, z, h, ops), is_head(s, h0), eaten(r0, r1, s)
    ensures same_head(h0, h), offers_body(r1, t, ops, !h0.seg), body_totals(h0, ops)
{
    let k = choose|k: int| is_section_at(z, k, h, ops);
    lemma_offers_prefix(r0, z);
    lemma_eaten_prefix(r0, r1, s);
    lemma_prefix_skip(z, rest(r0), k);
    lemma_head_unique(s, z.take(k), rest(r0), h0, h);
    assert(z.take(k).len() == k);
    lemma_offers_skip(r0, r1, s, z);
    z.skip(k)
}

//@item smdiff-reader/src/lib.rs fn read_section
fn read_section<R: std::io::Read>(reader: &mut R, op_buffer:&mut Vec<Op>) -> /*+*/ (r: /*-*/ std::io::Result<SectionHeader> /*+*/)
    ensures same_stream(*old(reader), *final(reader)), few(*old(reader), (*old(op_buffer))@.len() as int, (*final(op_buffer))@.len() as int),
        match r {
            Ok(h) => {
                let off = (*old(op_buffer))@.len() as int;
                let ops = sops((*final(op_buffer))@.skip(off));
                &&& off <= (*final(op_buffer))@.len() && (*final(op_buffer))@.take(off) == (*old(op_buffer))@
                &&& totals_ok(shead(h), ops) && ops_ok(ops)
                &&& exists|s: Seq<u8>| is_section(s, shead(h), ops) && #[trigger] eaten(*old(reader), *final(reader), s) && offers(*old(reader), s)
            },
            Err(_) => (*old(reader)).rreliable() ==> forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| !#[trigger] offers_section(*old(reader), s, h, ops),
        },
/*-*/ {
    /*+*/ hide(is_head); hide(is_body); hide(eaten); hide(is_section); hide(total); hide(adds); hide(offers_section); hide(body_totals); hide(offers_body);
    let ghost r0 = *reader;
    proof {
        assert forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| #[trigger] offers_section(r0, s, h, ops) implies exists|z: Seq<u8>| is_head(z, h) && #[trigger] offers_head(r0, z, h)
            by { lemma_section_head(r0, s, h, ops); }
    } /*-*/
    /*+*/ let ghost off = op_buffer@.len() as int; proof { ax_rpos(r0); } /*-*/
    let mut header = read_section_header(reader)?;
    /*+*/ let ghost r1 = *reader; let ghost h0 = shead(header); let ghost inter = !h0.seg; let ghost z = choose|z: Seq<u8>| is_head(z, h0) && #[trigger] eaten(r0, r1, z);
    proof {
        assert forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| #[trigger] offers_section(r0, s, h, ops) implies exists|t: Seq<u8>| #[trigger] offers_body(r1, t, ops, inter) && body_totals(h0, ops)
            by { let t = lemma_section_body(r0, r1, z, h0, s, h, ops); assert(offers_body(r1, t, ops, inter)); }
    } /*-*/
    /*+*/ proof { assert forall|held: int| #[trigger] few(r1, off, held) implies few(r0, off, held) by { reveal(eaten); } } /*-*/
    read_ops_no_comp(reader, &mut header, op_buffer)?;
    /*+*/ proof {
        let ops = sops((*op_buffer)@.skip((*old(op_buffer))@.len() as int));
        let t = choose|t: Seq<u8>| is_body(t, ops, !h0.seg) && #[trigger] eaten(r1, *reader, t);
        lemma_section_done(r0, r1, *reader, z, t, h0, shead(header), ops);
    } /*-*/
    Ok(header)
}
//@end

//@item smdiff-reader/src/lib.rs struct SectionIterator
struct SectionIterator<R>{
    source: R,
    done:bool,
    op_buffer: Vec<Op>,
}
//@end
impl<R: Read> SectionIterator<R>{
//@item smdiff-reader/src/lib.rs impl SectionIterator / fn new
    fn new(source: R) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r.source == source, !r.done /*-*/ {
        Self {
            source,
            done:false,
            op_buffer: Vec::new(),
        }
    }
//@end
//@item smdiff-reader/src/lib.rs impl SectionIterator / fn next_borrowed
    fn next_borrowed(&mut self) -> /*+*/ (r: /*-*/ Option<std::io::Result<(&[Op],SectionHeader)>> /*+*/)
        ensures
            r is None <==> old(self).done, r is None ==> *final(self) == *old(self),
            same_stream(old(self).source, final(self).source), r is Some ==> few(old(self).source, 0, final(self).op_buffer@.len() as int),
            r matches Some(Ok(p)) ==> {
                &&& totals_ok(shead(p.1), sops(p.0@)) && ops_ok(sops(p.0@)) && final(self).done == !p.1.more_sections
                &&& exists|s: Seq<u8>| is_section(s, shead(p.1), sops(p.0@)) && #[trigger] eaten(old(self).source, final(self).source, s) && offers(old(self).source, s)
            },
            r matches Some(Err(_)) && old(self).source.rreliable() ==> forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| !#[trigger] offers_section(old(self).source, s, h, ops),
    /*-*/ {
        if self.done{
            return None;
        }
        self.op_buffer.clear();
        let header = match read_section(&mut self.source,&mut self.op_buffer){
            Ok(v) => v,
            Err(e) => return Some(Err(e)),

        };
        /*+*/ proof { assert(self.op_buffer@.skip(0) =~= self.op_buffer@); } /*-*/
        if !header.more_sections{
            self.done = true;
        }
        Some(Ok((self.op_buffer.as_slice(),header)))
    }
//@end
//@item smdiff-reader/src/lib.rs impl SectionIterator / fn next_owned
    fn next_owned(&mut self) -> /*+*/ (r: /*-*/ Option<std::io::Result<(Vec<Op>,SectionHeader)>> /*+*/)
        ensures
            r is None <==> old(self).done, r is None ==> *final(self) == *old(self),
            same_stream(old(self).source, final(self).source),
            r matches Some(Ok(p)) ==> {
                &&& few(old(self).source, 0, p.0@.len() as int)
                &&& totals_ok(shead(p.1), sops(p.0@)) && ops_ok(sops(p.0@)) && final(self).done == !p.1.more_sections
                &&& exists|s: Seq<u8>| is_section(s, shead(p.1), sops(p.0@)) && #[trigger] eaten(old(self).source, final(self).source, s) && offers(old(self).source, s)
            },
            r matches Some(Err(_)) && old(self).source.rreliable() ==> forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| !#[trigger] offers_section(old(self).source, s, h, ops),
    /*-*/ {
        if self.done{
            return None;
        }
        let mut op_buffer = Vec::new();
        let header = match read_section(&mut self.source,&mut op_buffer){
            Ok(v) => v,
            Err(e) => return Some(Err(e)),

        };
        /*+*/ proof { assert(op_buffer@.skip(0) =~= op_buffer@); } /*-*/
        if !header.more_sections{
            self.done = true;
        }
        Some(Ok((op_buffer,header)))
    }
//@end
//@item smdiff-reader/src/lib.rs impl SectionIterator / fn into_inner
    fn into_inner(self) -> /*+*/ (r: /*-*/ R /*+*/) ensures r == self.source /*-*/ {
        self.source
    }
//@end
}

// not an iterator in vstd's prophetic sense (a reader that fails may continue); its contract is that of next_owned
impl<R: Read> vstd::std_specs::iter::IteratorSpecImpl for SectionIterator<R> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    open spec fn remaining(&self) -> Seq<Self::Item> { Seq::empty() }
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
}
impl<R: Read> Iterator for SectionIterator<R> {
    type Item = std::io::Result<(Vec<Op>, SectionHeader)>;
//@item smdiff-reader/src/lib.rs impl Iterator for SectionIterator / fn next !trait_member
    fn next(&mut self) -> /*+*/ (r: /*-*/ Option<Self::Item> /*+*/)
        ensures
            r is None <==> old(self).done, r is None ==> *final(self) == *old(self),
            same_stream(old(self).source, final(self).source),
            r matches Some(Ok(p)) ==> {
                &&& totals_ok(shead(p.1), sops(p.0@)) && ops_ok(sops(p.0@)) && final(self).done == !p.1.more_sections
                &&& exists|s: Seq<u8>| is_section(s, shead(p.1), sops(p.0@)) && #[trigger] eaten(old(self).source, final(self).source, s) && offers(old(self).source, s)
            },
            r matches Some(Err(_)) && old(self).source.rreliable() ==> forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| !#[trigger] offers_section(old(self).source, s, h, ops),
    /*-*/ {
        self.next_owned()
    }
//@end
}

}
}
