// The section format as a relation between byte strings and operations (ghost; spec.md).
pub mod format {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common::*;
verus! {

/// an operation as the format sees it
#[verifier::ext_equal]
pub enum SOp { Run { byte: u8, len: u8 }, Copy { dict: bool, addr: u64, len: u16 }, Add { bytes: Seq<u8> } }

pub open spec fn sop<A: AddOp>(op: Op<A>) -> SOp {
    match op {
        Op::Run(r) => SOp::Run { byte: r.byte, len: r.len },
        Op::Copy(c) => SOp::Copy { dict: c.src is Dict, addr: c.addr, len: c.len },
        Op::Add(a) => SOp::Add { bytes: a.view() },
    }
}
pub open spec fn sops<A: AddOp>(ops: Seq<Op<A>>) -> Seq<SOp> { Seq::new(ops.len(), |i: int| sop(ops[i])) }
/// number of output bytes
pub open spec fn slen(o: SOp) -> nat {
    match o { SOp::Run { byte, len } => len as nat, SOp::Copy { dict, addr, len } => len as nat, SOp::Add { bytes } => bytes.len() }
}
pub open spec fn sadd(o: SOp) -> Seq<u8> {
    match o { SOp::Add { bytes } => bytes, _ => Seq::empty() }
}
pub open spec fn total(ops: Seq<SOp>) -> nat
    decreases ops.len()
{ if ops.len() == 0 { 0 } else { total(ops.drop_last()) + slen(ops.last()) } }
/// all literal bytes in order
pub open spec fn adds(ops: Seq<SOp>) -> Seq<u8>
    decreases ops.len()
{ if ops.len() == 0 { Seq::empty() } else { adds(ops.drop_last()) + sadd(ops.last()) } }
/// address of the last copy of the given kind, 0 if none
pub open spec fn last_addr(ops: Seq<SOp>, d: bool) -> u64
    decreases ops.len()
{
    if ops.len() == 0 { 0 } else {
        match ops.last() { SOp::Copy { dict, addr, len } => if dict == d { addr } else { last_addr(ops.drop_last(), d) }, _ => last_addr(ops.drop_last(), d) }
    }
}
pub open spec fn sflag(o: SOp) -> u8 {
    match o { SOp::Run { .. } => 0xC0u8, SOp::Copy { dict, .. } => if dict { 0u8 } else { 0x40u8 }, SOp::Add { .. } => 0x80u8 }
}
pub open spec fn is_flag(f: u8) -> bool { f == 0 || f == 0x40 || f == 0x80 || f == 0xC0 }
/// s is an op byte with the given flag and its size bytes for size n
pub open spec fn is_size(s: Seq<u8>, flag: u8, n: nat) -> bool {
    ||| 1 <= n <= 62 && s == seq![(flag + n) as u8]
    ||| 62 <= n <= 317 && s == seq![(flag + 63) as u8, (n - 62) as u8] && flag != 0xC0
    ||| n <= 65535 && s == seq![flag] + le16(n as u16) && flag != 0xC0
}
pub open spec fn is_uv(s: Seq<u8>, n: nat) -> bool { uwf(s) && s.len() <= 10 && uval(s) == n }
/// the part of an operation after its size: s encodes it, given the previous address of its kind
pub open spec fn is_tail(s: Seq<u8>, o: SOp, base: u64, inter: bool) -> bool {
    match o {
        SOp::Run { byte, len } => s == seq![byte],
        SOp::Copy { dict, addr, len } => uwf(s) && s.len() <= 10 && uval(s) <= u64::MAX && addr_apply(base, unzz(uval(s) as u64)) == addr,
        SOp::Add { bytes } => s == (if inter { bytes } else { Seq::empty() }),
    }
}
pub open spec fn base_of(o: SOp, d: u64, oo: u64) -> u64 {
    match o { SOp::Copy { dict, .. } => if dict { d } else { oo }, _ => 0 }
}
pub open spec fn is_op_at(s: Seq<u8>, k: int, o: SOp, d: u64, oo: u64, inter: bool) -> bool {
    0 < k <= s.len() && is_size(s.take(k), sflag(o), slen(o)) && is_tail(s.skip(k), o, base_of(o, d, oo), inter)
}
/// s is one encoded operation
pub open spec fn is_op(s: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool) -> bool {
    exists|k: int| #[trigger] is_op_at(s, k, o, d, oo, inter)
}
/// s is the encoding of the operations one after another
pub open spec fn is_ops(s: Seq<u8>, ops: Seq<SOp>, inter: bool) -> bool
    decreases ops.len()
{
    if ops.len() == 0 { s.len() == 0 } else {
        exists|k: int| 0 <= k <= s.len() && is_ops(#[trigger] s.take(k), ops.drop_last(), inter)
            && is_op(s.skip(k), ops.last(), last_addr(ops.drop_last(), true), last_addr(ops.drop_last(), false), inter)
    }
}
pub open spec fn is_ops_at(s: Seq<u8>, k: int, ops: Seq<SOp>, inter: bool) -> bool {
    ops.len() > 0 && 0 <= k <= s.len() && is_ops(s.take(k), ops.drop_last(), inter)
        && is_op(s.skip(k), ops.last(), last_addr(ops.drop_last(), true), last_addr(ops.drop_last(), false), inter)
}
pub open spec fn is_body_at(s: Seq<u8>, k: int, ops: Seq<SOp>, inter: bool) -> bool {
    0 <= k <= s.len() && is_ops(s.take(k), ops, inter) && s.skip(k) == (if inter { Seq::empty() } else { adds(ops) })
}
/// s is everything after the header of a section
pub open spec fn is_body(s: Seq<u8>, ops: Seq<SOp>, inter: bool) -> bool {
    exists|k: int| #[trigger] is_body_at(s, k, ops, inter)
}

/// the header values that are stored
pub struct SHead { pub algo: u8, pub seg: bool, pub more: bool, pub n: nat, pub adds: nat, pub size: nat }
pub open spec fn shead(h: SectionHeader) -> SHead {
    SHead { algo: h.compression_algo, seg: h.format is Segregated, more: h.more_sections, n: h.num_operations as nat, adds: h.num_add_bytes as nat, size: h.output_size as nat }
}
pub open spec fn control(h: SHead) -> u8 { (h.algo * 8 + (if h.seg { 0x40int } else { 0 }) + (if h.more { 0x80int } else { 0 })) as u8 }
pub open spec fn is_head_at(s: Seq<u8>, a: int, b: int, h: SHead) -> bool {
    &&& 1 <= a <= b <= s.len()
    &&& s[0] - s[0] % 8 == control(h) && h.algo <= 7 // the low three bits carry no meaning
    &&& is_uv(s.subrange(1, a), h.n) && h.n <= u32::MAX
    &&& (if h.seg { is_uv(s.subrange(a, b), h.adds) } else { a == b }) && h.adds <= u32::MAX
    &&& is_uv(s.skip(b), if h.seg { (h.size - h.adds) as nat } else { h.size }) && h.size <= u32::MAX
    &&& h.seg ==> h.adds <= h.size
}
/// s is an encoded section header (h.adds is not stored in the interleaved layout)
pub open spec fn is_head(s: Seq<u8>, h: SHead) -> bool { exists|a: int, b: int| #[trigger] is_head_at(s, a, b, h) }

/// a whole section: header then body, the totals agree
pub open spec fn totals_ok(h: SHead, ops: Seq<SOp>) -> bool {
    h.n == ops.len() && h.size == total(ops) && h.adds == adds(ops).len()
}
pub open spec fn is_section_at(s: Seq<u8>, k: int, h: SHead, ops: Seq<SOp>) -> bool {
    0 <= k <= s.len() && is_head(s.take(k), h) && is_body(s.skip(k), ops, !h.seg) && totals_ok(h, ops)
}
pub open spec fn is_section(s: Seq<u8>, h: SHead, ops: Seq<SOp>) -> bool { exists|k: int| #[trigger] is_section_at(s, k, h, ops) }

/// what the format can represent
pub open spec fn op_ok(o: SOp) -> bool {
    match o { SOp::Run { byte, len } => 1 <= len <= 62, SOp::Copy { .. } => true, SOp::Add { bytes } => bytes.len() <= 65535 }
}
pub open spec fn ops_ok(ops: Seq<SOp>) -> bool { forall|i: int| 0 <= i < ops.len() ==> op_ok(#[trigger] ops[i]) }

// ---------------------------------------------------------------- lemmas

pub open spec fn prefix(a: Seq<u8>, t: Seq<u8>) -> bool { a.len() <= t.len() && a == t.take(a.len() as int) }

pub proof fn lemma_sops_push<A: AddOp>(ops: Seq<Op<A>>, k: int)
    requires 0 <= k < ops.len()
    ensures sops(ops.take(k + 1)).drop_last() == sops(ops.take(k)), sops(ops.take(k + 1)).last() == sop(ops[k]), sops(ops.take(k + 1)).len() == k + 1,
        sops(ops.take(k + 1)) == sops(ops.take(k)).push(sop(ops[k]))
{
    assert(sops(ops.take(k + 1)).drop_last() =~= sops(ops.take(k)));
    assert(sops(ops.take(k + 1)) =~= sops(ops.take(k)).push(sop(ops[k])));
}
pub proof fn lemma_total_push(ops: Seq<SOp>, o: SOp)
    ensures total(ops.push(o)) == total(ops) + slen(o), adds(ops.push(o)) == adds(ops) + sadd(o),
        last_addr(ops.push(o), true) == (if o is Copy && o->dict { o->addr } else { last_addr(ops, true) }),
        last_addr(ops.push(o), false) == (if o is Copy && !o->dict { o->addr } else { last_addr(ops, false) }),
{
    assert(ops.push(o).drop_last() =~= ops);
}
pub proof fn lemma_total_bound(ops: Seq<SOp>)
    requires ops_ok(ops)
    ensures total(ops) <= ops.len() * 65535, adds(ops).len() <= total(ops)
    decreases ops.len()
{
    if ops.len() > 0 {
        assert(ops_ok(ops.drop_last())) by { assert forall|i: int| 0 <= i < ops.drop_last().len() implies op_ok(#[trigger] ops.drop_last()[i]) by { assert(op_ok(ops[i])); } }
        lemma_total_bound(ops.drop_last());
        assert(op_ok(ops.last()));
        assert(ops.len() * 65535 == (ops.len() - 1) * 65535 + 65535) by (nonlinear_arith);
    }
}
pub proof fn lemma_adds_bound(ops: Seq<SOp>)
    ensures adds(ops).len() <= total(ops)
    decreases ops.len()
{
    if ops.len() > 0 { lemma_adds_bound(ops.drop_last()); }
}
/// appending an encoded operation to encoded operations
pub proof fn lemma_ops_push(s: Seq<u8>, ops: Seq<SOp>, t: Seq<u8>, o: SOp, inter: bool)
    requires is_ops(s, ops, inter), is_op(t, o, last_addr(ops, true), last_addr(ops, false), inter)
    ensures is_ops(s + t, ops.push(o), inter)
{
    let k = s.len() as int;
    assert((s + t).take(k) =~= s);
    assert((s + t).skip(k) =~= t);
    assert(ops.push(o).drop_last() =~= ops);
    assert(is_ops((s + t).take(k), ops.push(o).drop_last(), inter));
}
pub proof fn lemma_uwf_prefix(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>)
    requires uwf(a), uwf(b), prefix(a, t), prefix(b, t)
    ensures a == b
{
    lemma_uwf_unique(t, a.len() as int, b.len() as int);
}
pub proof fn lemma_size_prefix(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, f: u8, g: u8, m: nat, n: nat)
    requires is_size(a, f, m), is_size(b, g, n), prefix(a, t), prefix(b, t), is_flag(f), is_flag(g)
    ensures a == b, f == g, m == n
{
    assert(a[0] == t[0] && b[0] == t[0]);
    let x = a[0];
    assert(a.len() == b.len());
    assert(a =~= b);
    if a.len() == 3 {
        assert(a[1] == le16(m as u16)[0] && a[2] == le16(m as u16)[1]);
        assert(b[1] == le16(n as u16)[0] && b[2] == le16(n as u16)[1]);
    }
}
pub open spec fn alike(x: SOp, y: SOp, inter: bool) -> bool {
    x == y || (!inter && x is Add && y is Add && x->bytes.len() == y->bytes.len())
}
pub proof fn lemma_prefix_skip(a: Seq<u8>, t: Seq<u8>, k: int)
    requires prefix(a, t), 0 <= k <= a.len()
    ensures prefix(a.take(k), t), prefix(a.skip(k), t.skip(k))
{
    assert(a.take(k) =~= t.take(k));
    assert(a.skip(k) =~= t.skip(k).take(a.len() - k));
}
/// the encoding of an operation is self delimiting
pub proof fn lemma_op_unique(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, x: SOp, y: SOp, d: u64, oo: u64, inter: bool)
    requires is_op(a, x, d, oo, inter), is_op(b, y, d, oo, inter), prefix(a, t), prefix(b, t)
    ensures a == b, alike(x, y, inter)
{
    let j = choose|j: int| is_op_at(a, j, x, d, oo, inter);
    let k = choose|k: int| is_op_at(b, k, y, d, oo, inter);
    lemma_prefix_skip(a, t, j);
    lemma_prefix_skip(b, t, k);
    lemma_size_prefix(a.take(j), b.take(k), t, sflag(x), sflag(y), slen(x), slen(y));
    assert(a.take(j).len() == j && b.take(k).len() == k);
    let (p, q) = (a.skip(j), b.skip(k));
    let u = t.skip(j);
    match x {
        SOp::Run { byte, len } => { assert(p[0] == u[0] && q[0] == u[0]); assert(p =~= q); }
        SOp::Copy { .. } => { lemma_uwf_prefix(p, q, u); }
        SOp::Add { .. } => { assert(p =~= q); if inter { assert(x->bytes == y->bytes); } }
    }
    assert(a =~= a.take(j) + p);
    assert(b =~= b.take(k) + q);
}
pub proof fn lemma_ops_split(s: Seq<u8>, ops: Seq<SOp>, inter: bool) -> (k: int)
    requires is_ops(s, ops, inter), ops.len() > 0
    ensures is_ops_at(s, k, ops, inter)
{
    choose|k: int| 0 <= k <= s.len() && is_ops(#[trigger] s.take(k), ops.drop_last(), inter)
            && is_op(s.skip(k), ops.last(), last_addr(ops.drop_last(), true), last_addr(ops.drop_last(), false), inter)
}
pub proof fn lemma_ops_unique(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, x: Seq<SOp>, y: Seq<SOp>, inter: bool)
    requires is_ops(a, x, inter), is_ops(b, y, inter), prefix(a, t), prefix(b, t), x.len() == y.len()
    ensures a == b, forall|i: int| 0 <= i < x.len() ==> alike(#[trigger] x[i], y[i], inter), last_addr(x, true) == last_addr(y, true), last_addr(x, false) == last_addr(y, false)
    decreases x.len()
{
    hide(is_ops); hide(is_op); hide(sflag);
    if x.len() == 0 { reveal(is_ops); assert(a =~= b); } else {
        let j = lemma_ops_split(a, x, inter);
        let k = lemma_ops_split(b, y, inter);
        lemma_prefix_skip(a, t, j);
        lemma_prefix_skip(b, t, k);
        lemma_ops_unique(a.take(j), b.take(k), t, x.drop_last(), y.drop_last(), inter);
        assert(a.take(j).len() == j && b.take(k).len() == k);
        lemma_op_unique(a.skip(j), b.skip(k), t.skip(j), x.last(), y.last(), last_addr(x.drop_last(), true), last_addr(x.drop_last(), false), inter);
        assert(a =~= a.take(j) + a.skip(j));
        assert(b =~= b.take(k) + b.skip(k));
        assert forall|i: int| 0 <= i < x.len() implies alike(#[trigger] x[i], y[i], inter) by {
            if i < x.len() - 1 { assert(alike(x.drop_last()[i], y.drop_last()[i], inter)); }
        }
    }
}
pub proof fn lemma_alike_adds(x: Seq<SOp>, y: Seq<SOp>, inter: bool)
    requires x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> alike(#[trigger] x[i], y[i], inter)
    ensures adds(x).len() == adds(y).len(), total(x) == total(y), adds(x) == adds(y) ==> x == y, inter ==> x == y
    decreases x.len()
{
    if x.len() == 0 { assert(x =~= y); } else {
        assert forall|i: int| 0 <= i < x.len() - 1 implies alike(#[trigger] x.drop_last()[i], y.drop_last()[i], inter) by { assert(alike(x[i], y[i], inter)); }
        lemma_alike_adds(x.drop_last(), y.drop_last(), inter);
        assert(alike(x.last(), y.last(), inter));
        if adds(x) == adds(y) {
            assert(adds(x.drop_last()) =~= adds(x).take(adds(x.drop_last()).len() as int));
            assert(adds(y.drop_last()) =~= adds(y).take(adds(y.drop_last()).len() as int));
            assert(sadd(x.last()) =~= adds(x).skip(adds(x.drop_last()).len() as int));
            assert(sadd(y.last()) =~= adds(y).skip(adds(y.drop_last()).len() as int));
            assert(x.last() == y.last());
        }
        if inter || adds(x) == adds(y) { assert(x =~= x.drop_last().push(x.last())); assert(y =~= y.drop_last().push(y.last())); }
    }
}
pub proof fn lemma_body_unique(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, x: Seq<SOp>, y: Seq<SOp>, inter: bool)
    requires is_body(a, x, inter), is_body(b, y, inter), prefix(a, t), prefix(b, t), x.len() == y.len()
    ensures a == b, x == y
{
    let j = choose|j: int| is_body_at(a, j, x, inter);
    let k = choose|k: int| is_body_at(b, k, y, inter);
    lemma_prefix_skip(a, t, j);
    lemma_prefix_skip(b, t, k);
    lemma_ops_unique(a.take(j), b.take(k), t, x, y, inter);
    assert(a.take(j).len() == j && b.take(k).len() == k);
    lemma_alike_adds(x, y, inter);
    let n = adds(x).len() as int;
    if !inter {
        assert(a.skip(j) =~= t.skip(j).take(n));
        assert(b.skip(k) =~= t.skip(j).take(n));
    }
    assert(a =~= a.take(j) + a.skip(j));
    assert(b =~= b.take(k) + b.skip(k));
}
pub open spec fn same_head(g: SHead, h: SHead) -> bool {
    g.algo == h.algo && g.seg == h.seg && g.more == h.more && g.n == h.n && g.size == h.size && (g.seg ==> g.adds == h.adds)
}
pub proof fn lemma_control(g: SHead, h: SHead)
    requires g.algo <= 7, h.algo <= 7, control(g) == control(h)
    ensures g.algo == h.algo, g.seg == h.seg, g.more == h.more
{ }
pub proof fn lemma_head_unique(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, g: SHead, h: SHead)
    requires is_head(a, g), is_head(b, h), prefix(a, t), prefix(b, t)
    ensures a == b, same_head(g, h)
{
    hide(uwf); hide(uval); hide(control);
    let (i, j) = choose|i: int, j: int| is_head_at(a, i, j, g);
    let (p, q) = choose|p: int, q: int| is_head_at(b, p, q, h);
    assert(a[0] == t[0] && b[0] == t[0]);
    assert(control(g) == control(h));
    lemma_control(g, h);
    assert(a.subrange(1, i) =~= t.skip(1).take(i - 1));
    assert(b.subrange(1, p) =~= t.skip(1).take(p - 1));
    lemma_uwf_prefix(a.subrange(1, i), b.subrange(1, p), t.skip(1));
    assert(a.subrange(1, i).len() == i - 1 && b.subrange(1, p).len() == p - 1);
    if g.seg {
        assert(a.subrange(i, j) =~= t.skip(i).take(j - i));
        assert(b.subrange(p, q) =~= t.skip(i).take(q - i));
        lemma_uwf_prefix(a.subrange(i, j), b.subrange(p, q), t.skip(i));
        assert(a.subrange(i, j).len() == j - i && b.subrange(p, q).len() == q - p);
    }
    assert(a.skip(j) =~= t.skip(j).take(a.len() - j));
    assert(b.skip(q) =~= t.skip(j).take(b.len() - j));
    lemma_uwf_prefix(a.skip(j), b.skip(q), t.skip(j));
    assert(a.skip(j).len() == a.len() - j && b.skip(q).len() == b.len() - q);
    assert(a =~= t.take(a.len() as int));
}

pub proof fn lemma_uv_ok(n: nat)
    requires n <= u64::MAX
    ensures is_uv(uv(n), n), uv(n).len() >= 1
{
    c04_varint_roundtrip(n as u64, Seq::empty());
}
pub proof fn lemma_head_intro(h: SHead)
    requires h.algo <= 7, h.n <= u32::MAX, h.adds <= u32::MAX, h.size <= u32::MAX, h.seg ==> h.adds <= h.size
    ensures is_head(seq![control(h)] + uv(h.n) + (if h.seg { uv(h.adds) } else { Seq::empty() }) + uv(if h.seg { (h.size - h.adds) as nat } else { h.size }), h)
{
    let z = if h.seg { (h.size - h.adds) as nat } else { h.size };
    let y = if h.seg { uv(h.adds) } else { Seq::<u8>::empty() };
    lemma_uv_ok(h.n); lemma_uv_ok(h.adds); lemma_uv_ok(z);
    let s = seq![control(h)] + uv(h.n) + y + uv(z);
    let a = 1 + uv(h.n).len();
    let b = a + y.len();
    assert(s.subrange(1, a as int) =~= uv(h.n));
    assert(s.subrange(a as int, b as int) =~= y);
    assert(s.skip(b as int) =~= uv(z));
    assert(control(h) % 8 == 0);
    assert(is_head_at(s, a as int, b as int, h));
}

pub proof fn lemma_op_intro(t1: Seq<u8>, t2: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool)
    requires is_size(t1, sflag(o), slen(o)), is_tail(t2, o, base_of(o, d, oo), inter)
    ensures is_op(t1 + t2, o, d, oo, inter)
{
    let t = t1 + t2;
    assert(t.take(t1.len() as int) =~= t1);
    assert(t.skip(t1.len() as int) =~= t2);
    assert(is_op_at(t, t1.len() as int, o, d, oo, inter));
}
pub proof fn lemma_body_intro(s: Seq<u8>, ops: Seq<SOp>, inter: bool)
    requires is_ops(s, ops, inter)
    ensures is_body(s + (if inter { Seq::<u8>::empty() } else { adds(ops) }), ops, inter)
{
    let a = if inter { Seq::<u8>::empty() } else { adds(ops) };
    let b = s + a;
    assert(b.take(s.len() as int) =~= s);
    assert(b.skip(s.len() as int) =~= a);
    assert(is_body_at(b, s.len() as int, ops, inter));
}

// ---------------------------------------------------------------- reading

/// the unread data
pub open spec fn rest<R: std::io::Read>(r: R) -> Seq<u8> { r.rdata().skip(r.rpos()) }

pub proof fn lemma_offers_prefix<R: std::io::Read>(r: R, s: Seq<u8>)
    requires offers(r, s)
    ensures prefix(s, rest(r))
{ assert(s =~= rest(r).take(s.len() as int)); }
pub proof fn lemma_eaten_prefix<R: std::io::Read>(a: R, b: R, s: Seq<u8>)
    requires eaten(a, b, s), a.rpos() <= a.rdata().len()
    ensures prefix(s, rest(a))
{ assert(s =~= rest(a).take(s.len() as int)); }
pub proof fn lemma_offers_skip<R: std::io::Read>(a: R, b: R, s: Seq<u8>, t: Seq<u8>)
    requires offers(a, t), eaten(a, b, s), s == t.take(s.len() as int), s.len() <= t.len()
    ensures offers(b, t.skip(s.len() as int))
{
    assert(t.skip(s.len() as int) =~= b.rdata().subrange(b.rpos(), b.rpos() + t.len() - s.len()));
}
pub proof fn lemma_offers_take<R: std::io::Read>(a: R, t: Seq<u8>, k: int)
    requires offers(a, t), 0 <= k <= t.len()
    ensures offers(a, t.take(k))
{
    assert(t.take(k) =~= a.rdata().subrange(a.rpos(), a.rpos() + k));
}
pub proof fn lemma_eaten_join<R: std::io::Read>(a: R, b: R, c: R, s: Seq<u8>, t: Seq<u8>)
    requires eaten(a, b, s), eaten(b, c, t)
    ensures eaten(a, c, s + t)
{
    if s.len() == 0 { assert(s + t =~= t); }
    else if t.len() == 0 { assert(s + t =~= s); }
    else { assert(s + t =~= a.rdata().subrange(a.rpos(), c.rpos())); }
}
pub proof fn lemma_eaten_none<R: std::io::Read>(a: R)
    requires a.rpos() >= 0
    ensures eaten(a, a, Seq::<u8>::empty())
{ }
/// if the stream offers t and its first bytes parsed as the complete varint s, then t continues after s
pub proof fn lemma_after_varint<R: std::io::Read>(a: R, b: R, s: Seq<u8>, z: Seq<u8>, t: Seq<u8>)
    requires offers(a, t), eaten(a, b, s), uwf(s), uwf(z), z.len() <= t.len(), z == t.take(z.len() as int)
    ensures s == z, offers(b, t.skip(z.len() as int))
{
    lemma_offers_prefix(a, t);
    lemma_eaten_prefix(a, b, s);
    assert(z =~= rest(a).take(z.len() as int));
    lemma_uwf_prefix(s, z, rest(a));
    lemma_offers_skip(a, b, s, t);
}
/// what an offered operation looks like after its first byte was read
pub proof fn lemma_offered_op<R: std::io::Read>(r0: R, r1: R, b: u8, s: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool)
    requires eaten(r0, r1, seq![b]), offers(r0, s), is_op(s, o, d, oo, inter)
    ensures
        sflag(o) == b - b % 64,
        1 <= b % 64 <= 62 ==> slen(o) == b % 64 && is_tail(s.skip(1), o, base_of(o, d, oo), inter) && offers(r1, s.skip(1)),
        b % 64 == 63 ==> s.len() >= 2 && slen(o) == s[1] + 62 && is_tail(s.skip(2), o, base_of(o, d, oo), inter) && offers(r1, s.skip(1)) && !(o is Run),
        b % 64 == 0 ==> s.len() >= 3 && s.subrange(1, 3) == le16(slen(o) as u16) && slen(o) <= 65535 && is_tail(s.skip(3), o, base_of(o, d, oo), inter) && offers(r1, s.skip(1)) && !(o is Run),
{
    let k = choose|k: int| is_op_at(s, k, o, d, oo, inter);
    assert(seq![b][0] == r0.rdata()[r0.rpos()]);
    assert(s[0] == r0.rdata()[r0.rpos()]);
    assert(s.take(k)[0] == b);
    assert(seq![b] =~= s.take(1));
    lemma_offers_skip(r0, r1, seq![b], s);
    let n = slen(o);
    let f = sflag(o);
    let z = s.take(k);
    assert(z.len() == k);
    assert(is_flag(f));
    if z == seq![f] + le16(n as u16) && f != 0xC0 && n <= 65535 {
        assert(z[0] == f && k == 3);
        assert(b % 64 == 0);
        assert(s.subrange(1, 3) =~= z.skip(1)); assert(z.skip(1) =~= le16(n as u16));
    } else if z == seq![(f + 63) as u8, (n - 62) as u8] && 62 <= n <= 317 && f != 0xC0 {
        assert(z[0] == (f + 63) as u8 && k == 2 && z[1] == (n - 62) as u8);
        assert(b % 64 == 63);
        assert(z[1] == s[1]);
    } else {
        assert(z[0] == (f + n) as u8 && k == 1);
        assert(b % 64 == n);
    }
}
/// the i-th operation inside encoded operations
pub proof fn lemma_ops_index(s: Seq<u8>, ops: Seq<SOp>, inter: bool, i: int) -> (jl: (int, int))
    requires is_ops(s, ops, inter), 0 <= i < ops.len()
    ensures 0 <= jl.0 <= jl.1 <= s.len(), is_ops(s.take(jl.0), ops.take(i), inter),
        is_op(s.subrange(jl.0, jl.1), ops[i], last_addr(ops.take(i), true), last_addr(ops.take(i), false), inter)
    decreases ops.len()
{
    let k = lemma_ops_split(s, ops, inter);
    if i == ops.len() - 1 {
        assert(ops.take(i) =~= ops.drop_last());
        assert(s.subrange(k, s.len() as int) =~= s.skip(k));
        (k, s.len() as int)
    } else {
        let (j, l) = lemma_ops_index(s.take(k), ops.drop_last(), inter, i);
        assert(s.take(k).take(j) =~= s.take(j));
        assert(ops.drop_last().take(i) =~= ops.take(i));
        assert(s.take(k).subrange(j, l) =~= s.subrange(j, l));
        (j, l)
    }
}
/// the operations read so far are those of every offered body, and the stream offers its next operation
pub proof fn lemma_next_op<R: std::io::Read>(r0: R, r1: R, s: Seq<u8>, done: Seq<SOp>, t: Seq<u8>, ops: Seq<SOp>, inter: bool) -> (u: Seq<u8>)
    requires eaten(r0, r1, s), is_ops(s, done, inter), offers(r0, t), is_ops(t, ops, inter), done.len() < ops.len()
    ensures offers(r1, u), is_op(u, ops[done.len() as int], last_addr(done, true), last_addr(done, false), inter)
{
    let i = done.len() as int;
    let (j, l) = lemma_ops_index(t, ops, inter, i);
    lemma_offers_prefix(r0, t);
    lemma_eaten_prefix(r0, r1, s);
    lemma_prefix_skip(t, rest(r0), j);
    lemma_ops_unique(s, t.take(j), rest(r0), done, ops.take(i), inter);
    lemma_offers_skip(r0, r1, s, t);
    assert(t.take(j).len() == j);
    lemma_offers_take(r1, t.skip(j), l - j);
    assert(t.skip(j).take(l - j) =~= t.subrange(j, l));
    t.subrange(j, l)
}
/// positions of the adds
pub open spec fn adds_at(ops: Seq<SOp>) -> Seq<int>
    decreases ops.len()
{ if ops.len() == 0 { Seq::empty() } else if ops.last() is Add { adds_at(ops.drop_last()).push(ops.len() - 1) } else { adds_at(ops.drop_last()) } }

pub proof fn lemma_adds_at(ops: Seq<SOp>, q: int)
    requires 0 <= q < adds_at(ops).len()
    ensures 0 <= adds_at(ops)[q] < ops.len(), ops[adds_at(ops)[q]] is Add, adds_at(ops.take(adds_at(ops)[q])).len() == q,
        adds_at(ops.take(adds_at(ops)[q] + 1)).len() == q + 1,
    decreases ops.len()
{
    let p = ops.drop_last();
    if ops.last() is Add && q == adds_at(ops).len() - 1 {
        assert(ops.take(ops.len() - 1) =~= p);
        assert(ops.take(ops.len() as int) =~= ops);
    } else {
        lemma_adds_at(p, q);
        let a = adds_at(ops)[q];
        assert(adds_at(p)[q] == a);
        assert(p.take(a) =~= ops.take(a));
        assert(p.take(a + 1) =~= ops.take(a + 1));
    }
}
pub proof fn lemma_no_adds(ops: Seq<SOp>, a: int, b: int)
    requires 0 <= a <= b <= ops.len(), adds_at(ops.take(a)).len() >= adds_at(ops.take(b)).len()
    ensures adds(ops.take(a)) == adds(ops.take(b)), adds_at(ops.take(a)).len() == adds_at(ops.take(b)).len()
    decreases b - a
{
    if a < b {
        assert(ops.take(b).drop_last() =~= ops.take(b - 1));
        lemma_adds_at_mono(ops, a, b - 1);
        lemma_no_adds(ops, a, b - 1);
        assert(adds(ops.take(b)) =~= adds(ops.take(b - 1)));
    }
}
pub proof fn lemma_adds_at_mono(ops: Seq<SOp>, a: int, b: int)
    requires 0 <= a <= b <= ops.len()
    ensures adds_at(ops.take(a)).len() <= adds_at(ops.take(b)).len()
    decreases b - a
{
    if a < b {
        assert(ops.take(b).drop_last() =~= ops.take(b - 1));
        lemma_adds_at_mono(ops, a, b - 1);
    }
}
pub proof fn lemma_adds_at_alike(x: Seq<SOp>, y: Seq<SOp>)
    requires x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> alike(#[trigger] x[i], y[i], false)
    ensures adds_at(x) == adds_at(y)
    decreases x.len()
{
    if x.len() > 0 {
        assert forall|i: int| 0 <= i < x.len() - 1 implies alike(#[trigger] x.drop_last()[i], y.drop_last()[i], false) by { assert(alike(x[i], y[i], false)); }
        lemma_adds_at_alike(x.drop_last(), y.drop_last());
        assert(alike(x.last(), y.last(), false));
    }
}
/// changing literal bytes does not change how the operations are encoded in the segregated layout
pub proof fn lemma_alike_ops(s: Seq<u8>, x: Seq<SOp>, y: Seq<SOp>)
    requires is_ops(s, x, false), x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> alike(#[trigger] x[i], y[i], false)
    ensures is_ops(s, y, false), last_addr(x, true) == last_addr(y, true), last_addr(x, false) == last_addr(y, false)
    decreases x.len()
{
    if x.len() > 0 {
        let k = lemma_ops_split(s, x, false);
        assert forall|i: int| 0 <= i < x.len() - 1 implies alike(#[trigger] x.drop_last()[i], y.drop_last()[i], false) by { assert(alike(x[i], y[i], false)); }
        lemma_alike_ops(s.take(k), x.drop_last(), y.drop_last());
        assert(alike(x.last(), y.last(), false));
        let (d, oo) = (last_addr(x.drop_last(), true), last_addr(x.drop_last(), false));
        let t = s.skip(k);
        let m = choose|m: int| is_op_at(t, m, x.last(), d, oo, false);
        assert(is_op_at(t, m, y.last(), d, oo, false));
    }
}

}
}
