// Lists of operations: what they produce, and what parts of them produce (ghost; no code of the repository).
pub mod op_lemmas {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common::*;
use crate::format::*;
use crate::patch::*;
verus! {

/// operations that produce t without data in the source do not need one
pub proof fn lemma_no_dict(ops: Seq<SOp>, t: Seq<u8>)
    requires full_ops(ops), run_ops(ops, Some(Seq::empty()), Seq::empty()) == Some(t)
    ensures run_ops(ops, None, Seq::empty()) == Some(t)
    decreases ops.len()
{
    if ops.len() > 0 {
        assert(slen(ops[ops.len() - 1]) >= 1);
        assert forall|i: int| 0 <= i < ops.drop_last().len() implies slen(#[trigger] ops.drop_last()[i]) >= 1 by { assert(slen(ops[i]) >= 1); }
        lemma_no_dict(ops.drop_last(), run_ops(ops.drop_last(), Some(Seq::empty()), Seq::empty())->0);
    }
}
/// what every single operation contributes to the output
pub proof fn lemma_parts(ops: Seq<SOp>, k: int, d: Option<Seq<u8>>, t: Seq<u8>)
    requires run_ops(ops, d, Seq::empty()) == Some(t), 0 <= k <= ops.len()
    ensures total(ops.take(k)) <= t.len(), run_ops(ops.take(k), d, Seq::empty()) == Some(t.take(total(ops.take(k)) as int)),
        k < ops.len() ==> total(ops.take(k + 1)) == total(ops.take(k)) + slen(ops[k]) <= t.len()
            && op_out(ops[k], d, t.take(total(ops.take(k)) as int)) == Some(t.subrange(total(ops.take(k)) as int, total(ops.take(k + 1)) as int)),
        k == ops.len() ==> total(ops.take(k)) == t.len(),
    decreases ops.len() - k
{
    if k == ops.len() {
        assert(ops.take(k) =~= ops);
        lemma_total_is(ops, d, t);
        assert(t.take(t.len() as int) =~= t);
    } else {
        lemma_parts(ops, k + 1, d, t);
        let p = ops.take(k + 1);
        assert(p.drop_last() =~= ops.take(k));
        let o = run_ops(ops.take(k), d, Seq::empty())->0;
        lemma_total_is(ops.take(k), d, o);
        lemma_run_step(ops, k, d, Seq::empty(), o);
        let b = op_out(ops[k], d, o)->0;
        let q = t.take(total(p) as int);
        assert(q == o + b);
        assert(t.take(o.len() as int) =~= q.take(o.len() as int));
        assert(o =~= q.take(o.len() as int));
        assert(b =~= t.subrange(o.len() as int, total(p) as int)) by { assert(b =~= q.skip(o.len() as int)); assert(q.skip(o.len() as int) =~= t.subrange(o.len() as int, total(p) as int)); }
    }
}
pub proof fn lemma_total_is(ops: Seq<SOp>, d: Option<Seq<u8>>, t: Seq<u8>)
    requires run_ops(ops, d, Seq::empty()) == Some(t)
    ensures total(ops) == t.len()
    decreases ops.len()
{
    if ops.len() > 0 {
        let o = run_ops(ops.drop_last(), d, Seq::empty())->0;
        lemma_total_is(ops.drop_last(), d, o);
        assert(ops.take(ops.len() - 1) =~= ops.drop_last());
        lemma_run_step(ops, ops.len() - 1, d, Seq::empty(), o);
    }
}
pub proof fn lemma_total_join(a: Seq<SOp>, b: Seq<SOp>)
    ensures total(a + b) == total(a) + total(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_total_join(a, b.drop_last()); }
}
/// what the k-th operation stands for: the bytes of the target at p
pub open spec fn stands(o: SOp, src: Seq<u8>, t: Seq<u8>, p: int) -> bool {
    &&& 0 <= p && p + slen(o) <= t.len()
    &&& match o {
        SOp::Add { bytes } => bytes == t.subrange(p, p + slen(o)),
        SOp::Copy { dict, addr, len } => addr + len <= (if dict { src } else { t }).len() && (if dict { src } else { t }).subrange(addr as int, addr + len) == t.subrange(p, p + slen(o)),
        SOp::Run { byte, len } => forall|i: int| 0 <= i < len ==> #[trigger] t.subrange(p, p + slen(o))[i] == byte,
    }
}
/// what can be made without a source is the same with any source
pub proof fn lemma_any_dict(ops: Seq<SOp>, d: Option<Seq<u8>>, t: Seq<u8>)
    requires run_ops(ops, None, Seq::empty()) == Some(t)
    ensures run_ops(ops, d, Seq::empty()) == Some(t)
    decreases ops.len()
{
    if ops.len() > 0 { lemma_any_dict(ops.drop_last(), d, run_ops(ops.drop_last(), None, Seq::empty())->0); }
}
pub proof fn lemma_count_bound(ops: Seq<SOp>)
    requires full_ops(ops)
    ensures ops.len() <= total(ops)
    decreases ops.len()
{
    if ops.len() > 0 {
        let o = ops.drop_last();
        assert forall|i: int| 0 <= i < o.len() implies slen(#[trigger] o[i]) >= 1 by { assert(slen(ops[i]) >= 1); }
        assert(slen(ops[ops.len() - 1]) >= 1);
        lemma_count_bound(o);
    }
}
/// no operation without output
pub open spec fn full_ops(ops: Seq<SOp>) -> bool { forall|i: int| 0 <= i < ops.len() ==> slen(#[trigger] ops[i]) >= 1 }
pub open spec fn neat(ops: Seq<SOp>) -> bool { ops_ok(ops) && full_ops(ops) }

// ---------------------------------------------------------------- lists of operations and what they produce
/// applied one after another the operations produce `t` (source `d`)
pub open spec fn yields(ops: Seq<SOp>, d: Option<Seq<u8>>, t: Seq<u8>) -> bool { run_ops(ops, d, Seq::empty()) == Some(t) }
/// no copy from the output
pub open spec fn own(o: SOp) -> bool { !(o matches SOp::Copy { dict, addr, len } && !dict) }
pub open spec fn flat(ops: Seq<SOp>) -> bool { forall|i: int| 0 <= i < ops.len() ==> own(#[trigger] ops[i]) }
/// a copy from the source
pub open spec fn from_src(o: SOp) -> bool { o matches SOp::Copy { dict, addr, len } && dict }
/// the end of what is copied can be represented
pub open spec fn fit(o: SOp) -> bool { o matches SOp::Copy { dict, addr, len } ==> addr + len <= u64::MAX }
pub open spec fn fits(ops: Seq<SOp>) -> bool { forall|i: int| 0 <= i < ops.len() ==> fit(#[trigger] ops[i]) }

/// the part of an operation that produces its bytes a..b
pub open spec fn clip(o: SOp, a: int, b: int) -> SOp {
    match o {
        SOp::Run { byte, len } => SOp::Run { byte, len: (b - a) as u8 },
        SOp::Copy { dict, addr, len } => SOp::Copy { dict, addr: (addr + a) as u64, len: (b - a) as u16 },
        SOp::Add { bytes } => SOp::Add { bytes: bytes.subrange(a, b) },
    }
}
pub proof fn lemma_clip(o: SOp, a: int, b: int)
    requires 0 <= a <= b <= slen(o), fit(o)
    ensures slen(clip(o, a, b)) == b - a, fit(clip(o, a, b)), own(clip(o, a, b)) == own(o), from_src(clip(o, a, b)) == from_src(o), op_ok(o) && a < b ==> op_ok(clip(o, a, b)),
        a == 0 && b == slen(o) ==> clip(o, a, b) == o,
{
    if a == 0 && b == slen(o) { match o { SOp::Add { bytes } => { assert(bytes.subrange(a, b) =~= bytes); }, _ => { } } }
}
/// the operations after cutting twice at their end
pub proof fn lemma_clip_clip(o: SOp, a: int, b: int)
    requires 0 <= a <= b <= slen(o), fit(o)
    ensures clip(clip(o, a, slen(o) as int), 0, b - a) == clip(o, a, b)
{
    match o { SOp::Add { bytes } => { assert(bytes.subrange(a, slen(o) as int).subrange(0, b - a) =~= bytes.subrange(a, b)); }, _ => { } }
}
pub proof fn lemma_clip_out(o: SOp, a: int, b: int, d: Option<Seq<u8>>, out: Seq<u8>, out2: Seq<u8>)
    requires 0 <= a < b <= slen(o), fit(o), own(o), op_out(o, d, out) is Some
    ensures op_out(clip(o, a, b), d, out2) == Some(op_out(o, d, out)->0.subrange(a, b)), op_out(o, d, out)->0.len() == slen(o)
{
    match o {
        SOp::Run { byte, len } => { assert(Seq::new((b - a) as nat, |i: int| byte) =~= Seq::new(len as nat, |i: int| byte).subrange(a, b)); assert(((b - a) as u8) as nat == (b - a) as nat); },
        SOp::Copy { dict, addr, len } => { let s = d->0; assert(s.subrange(addr as int, addr + len).subrange(a, b) =~= s.subrange(addr + a, addr + b)); },
        SOp::Add { bytes } => { },
    }
}
pub open spec fn lower(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn higher(a: int, b: int) -> int { if a < b { b } else { a } }
/// the part of the i-th operation that lies within lo..hi of what all of them produce
pub open spec fn cut(b: Seq<SOp>, i: int, lo: int, hi: int) -> SOp {
    let p = total(b.take(i)) as int;
    clip(b[i], higher(lo, p) - p, lower(hi, p + slen(b[i])) - p)
}
/// s is the part lo..hi of b: it starts with the i-th operation of b
pub open spec fn is_cut(b: Seq<SOp>, s: Seq<SOp>, i: int, lo: int, hi: int) -> bool {
    &&& 0 <= i && i + s.len() <= b.len() && s.len() >= 1 && lo < hi
    &&& total(b.take(i)) <= lo < total(b.take(i + 1)) && total(b.take(i + s.len() - 1)) < hi <= total(b.take((i + s.len()) as int))
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == cut(b, i + k, lo, hi)
}
pub proof fn lemma_take_total(ops: Seq<SOp>, i: int)
    requires 0 <= i < ops.len()
    ensures total(ops.take(i + 1)) == total(ops.take(i)) + slen(ops[i])
{ assert(ops.take(i + 1).drop_last() =~= ops.take(i)); }
pub proof fn lemma_take_mono(ops: Seq<SOp>, i: int, j: int)
    requires 0 <= i <= j <= ops.len()
    ensures total(ops.take(i)) <= total(ops.take(j)) <= total(ops)
    decreases ops.len() - i
{
    if i < j { lemma_take_total(ops, i); lemma_take_mono(ops, i + 1, j); } else if j < ops.len() { lemma_take_total(ops, i); lemma_take_mono(ops, j + 1, j + 1); }
    else { assert(ops.take(j) =~= ops); }
}
pub open spec fn good(ops: Seq<SOp>) -> bool { neat(ops) && fits(ops) }
pub proof fn lemma_cut_step(b: Seq<SOp>, s: Seq<SOp>, i: int, lo: int, hi: int, k: int)
    requires is_cut(b, s, i, lo, hi), 0 <= k < s.len(), good(b)
    ensures ({ let p = total(b.take(i + k)) as int; let q = total(b.take(i + k + 1)) as int; let x = higher(lo, p) - p; let y = lower(hi, q) - p;
        0 <= x < y <= slen(b[i + k]) && q == p + slen(b[i + k]) && s[k] == clip(b[i + k], x, y) && fit(b[i + k]) && op_ok(b[i + k]) && (k > 0 ==> lo <= p) && (k < s.len() - 1 ==> q <= hi) })
{
    lemma_take_total(b, i + k);
    assert(slen(b[i + k]) >= 1 && fit(b[i + k]) && op_ok(b[i + k]));
    if k > 0 { lemma_take_mono(b, i + 1, i + k); }
    if k < s.len() - 1 { lemma_take_mono(b, i + k + 1, i + s.len() - 1); }
}
pub proof fn lemma_cut_total(b: Seq<SOp>, s: Seq<SOp>, i: int, lo: int, hi: int, k: int)
    requires is_cut(b, s, i, lo, hi), 1 <= k <= s.len(), good(b)
    ensures total(s.take(k)) == lower(hi, total(b.take(i + k)) as int) - lo
    decreases k
{
    lemma_cut_step(b, s, i, lo, hi, k - 1);
    lemma_take_total(s, k - 1);
    let p = total(b.take(i + k - 1)) as int; let q = total(b.take(i + k)) as int;
    lemma_clip(b[i + k - 1], higher(lo, p) - p, lower(hi, q) - p);
    if k > 1 { lemma_cut_total(b, s, i, lo, hi, k - 1); lemma_cut_step(b, s, i, lo, hi, k - 2); } else { assert(s.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_cut(b: Seq<SOp>, s: Seq<SOp>, i: int, lo: int, hi: int)
    requires is_cut(b, s, i, lo, hi), good(b)
    ensures total(s) == hi - lo, good(s), flat(b) ==> flat(s),
        forall|k: int| 0 <= k < s.len() ==> from_src(#[trigger] s[k]) == from_src(b[i + k]),
{
    lemma_cut_total(b, s, i, lo, hi, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert forall|k: int| 0 <= k < s.len() implies slen(#[trigger] s[k]) >= 1 && op_ok(s[k]) && fit(s[k]) && own(s[k]) == own(b[i + k]) && from_src(s[k]) == from_src(b[i + k]) by {
        lemma_cut_step(b, s, i, lo, hi, k);
        let p = total(b.take(i + k)) as int; let q = total(b.take(i + k + 1)) as int;
        lemma_clip(b[i + k], higher(lo, p) - p, lower(hi, q) - p);
    }
    if flat(b) { assert forall|k: int| 0 <= k < s.len() implies own(#[trigger] s[k]) by { assert(own(b[i + k])); } }
}
/// the part lo..hi produces the bytes lo..hi, wherever it stands
pub proof fn lemma_cut_out(b: Seq<SOp>, s: Seq<SOp>, i: int, lo: int, hi: int, d: Option<Seq<u8>>, o: Seq<u8>, x: Seq<u8>)
    requires is_cut(b, s, i, lo, hi), good(b), flat(b), yields(b, d, o)
    ensures hi <= o.len(), run_ops(s, d, x) == Some(x + o.subrange(lo, hi))
{
    lemma_cut_run(b, s, i, lo, hi, d, o, x, s.len() as int);
    lemma_take_mono(b, (i + s.len()) as int, b.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
#[verifier::spinoff_prover]
proof fn lemma_cut_run(b: Seq<SOp>, s: Seq<SOp>, i: int, lo: int, hi: int, d: Option<Seq<u8>>, o: Seq<u8>, x: Seq<u8>, k: int)
    requires is_cut(b, s, i, lo, hi), good(b), flat(b), yields(b, d, o), 1 <= k <= s.len()
    ensures hi <= o.len(), run_ops(s.take(k), d, x) == Some(x + o.subrange(lo, lower(hi, total(b.take(i + k)) as int)))
    decreases k
{
    hide(run_ops); hide(op_out); hide(clip);
    let j = i + k - 1;
    lemma_parts(b, (i + s.len()) as int, d, o);
    lemma_cut_step(b, s, i, lo, hi, k - 1);
    let p = total(b.take(j)) as int; let q = total(b.take(j + 1)) as int;
    lemma_parts(b, j, d, o);
    let z = lower(hi, q);
    let w = higher(lo, p);
    assert(own(b[j]));
    lemma_take_mono(b, j + 1, b.len() as int);
    let y = if k == 1 { x } else { x + o.subrange(lo, p) };
    lemma_clip_out(b[j], w - p, z - p, d, o.take(p), y);
    assert(o.subrange(p, q).subrange(w - p, z - p) =~= o.subrange(w, z));
    if k == 1 { assert(s.take(0) =~= Seq::empty()); reveal(run_ops); }
    else { lemma_cut_run(b, s, i, lo, hi, d, o, x, k - 1); lemma_cut_step(b, s, i, lo, hi, k - 2); assert(lower(hi, p) == p); }
    assert(run_ops(s.take(k - 1), d, x) == Some(y));
    lemma_run_step(s, k - 1, d, x, y);
    assert(y + o.subrange(w, z) =~= x + o.subrange(lo, z));
}

}
}
