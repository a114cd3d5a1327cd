// Whole patches: sections one after another (ghost; no code of the repository).
pub mod patch {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common::*;
use crate::format::*;
verus! {

// ---------------------------------------------------------------- what operations mean (spec.md)
/// the bytes an operation appends to the output `out`; None where it refers to bytes that do not exist
pub open spec fn op_out(o: SOp, src: Option<Seq<u8>>, out: Seq<u8>) -> Option<Seq<u8>> {
    match o {
        SOp::Add { bytes } => Some(bytes),
        SOp::Run { byte, len } => Some(Seq::new(len as nat, |i: int| byte)),
        SOp::Copy { dict, addr, len } =>
            if dict { match src { Some(d) => if addr + len <= d.len() { Some(d.subrange(addr as int, addr + len)) } else if len == 0 { Some(Seq::empty()) } else { None }, None => None } }
            else if addr + len <= out.len() { Some(out.subrange(addr as int, addr + len)) } else { None },
    }
}
/// the output after a list of operations
pub open spec fn run_ops(ops: Seq<SOp>, src: Option<Seq<u8>>, out: Seq<u8>) -> Option<Seq<u8>>
    decreases ops.len()
{
    if ops.len() == 0 { Some(out) } else {
        match run_ops(ops.drop_last(), src, out) {
            None => None,
            Some(o) => match op_out(ops.last(), src, o) { None => None, Some(b) => Some(o + b) },
        }
    }
}
/// a copy of no bytes from the source (it may refer to a position outside of it)
pub open spec fn empty_dict(o: SOp) -> bool { o matches SOp::Copy { dict, addr, len } && dict && len == 0 }
pub open spec fn has_empty_dict(ops: Seq<SOp>) -> bool { exists|i: int| 0 <= i < ops.len() && empty_dict(#[trigger] ops[i]) }

pub proof fn lemma_run_none(ops: Seq<SOp>, k: int, src: Option<Seq<u8>>, out: Seq<u8>)
    requires 0 <= k <= ops.len(), run_ops(ops.take(k), src, out) is None
    ensures run_ops(ops, src, out) is None
    decreases ops.len() - k
{
    if k == ops.len() { assert(ops.take(k) =~= ops); }
    else { assert(ops.take(k + 1).drop_last() =~= ops.take(k)); lemma_run_none(ops, k + 1, src, out); }
}
/// grouping does not matter: running a list after another is running their concatenation
pub proof fn lemma_run_join(a: Seq<SOp>, b: Seq<SOp>, src: Option<Seq<u8>>, out: Seq<u8>)
    ensures run_ops(a + b, src, out) == (match run_ops(a, src, out) { None => None, Some(o) => run_ops(b, src, o) })
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_run_join(a, b.drop_last(), src, out); }
}
pub proof fn lemma_run_step(ops: Seq<SOp>, k: int, src: Option<Seq<u8>>, out: Seq<u8>, o: Seq<u8>)
    requires 0 <= k < ops.len(), run_ops(ops.take(k), src, out) == Some(o)
    ensures run_ops(ops.take(k + 1), src, out) == (match op_out(ops[k], src, o) { None => None, Some(b) => Some(o + b) }),
        op_out(ops[k], src, o) is None ==> run_ops(ops, src, out) is None,
        op_out(ops[k], src, o) matches Some(b) ==> b.len() == slen(ops[k]),
{
    assert(ops.take(k + 1).drop_last() =~= ops.take(k));
    if op_out(ops[k], src, o) is None { lemma_run_none(ops, k + 1, src, out); }
}

// ---------------------------------------------------------------- sections one after another
pub struct Sec { pub h: SHead, pub ops: Seq<SOp> }
/// all operations of the sections
pub open spec fn flat_ops(secs: Seq<Sec>) -> Seq<SOp>
    decreases secs.len()
{ if secs.len() == 0 { Seq::empty() } else { flat_ops(secs.drop_last()) + secs.last().ops } }
/// what counts as the encoding of one section: section bytes, header, operations
pub type SecPred = spec_fn(Seq<u8>, SHead, Seq<SOp>) -> bool;
/// sections as the section writer writes them (not compressed)
pub open spec fn plain() -> SecPred { |s: Seq<u8>, h: SHead, ops: Seq<SOp>| is_section(s, h, ops) }
/// at one place there is at most one section, and it is not empty
pub open spec fn proper(p: SecPred) -> bool {
    forall|a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, g: SHead, h: SHead, x: Seq<SOp>, y: Seq<SOp>| #![trigger p(a, g, x), p(b, h, y), prefix(a, t), prefix(b, t)]
        p(a, g, x) && p(b, h, y) && prefix(a, t) && prefix(b, t) ==> a == b && g == h && x == y
}
/// s is the encoding of the sections; every one has the continuation flag, except the last one if `fin`
pub open spec fn is_secs(p: SecPred, s: Seq<u8>, secs: Seq<Sec>, fin: bool) -> bool
    decreases secs.len()
{
    if secs.len() == 0 { s.len() == 0 && !fin } else {
        exists|k: int| 0 <= k <= s.len() && #[trigger] p(s.take(k), secs[0].h, secs[0].ops)
            && secs[0].h.more == !(fin && secs.len() == 1) && is_secs(p, s.skip(k), secs.skip(1), fin && secs.len() > 1)
    }
}
/// s is a whole patch
pub open spec fn is_patch(p: SecPred, s: Seq<u8>, secs: Seq<Sec>) -> bool { is_secs(p, s, secs, true) }
pub open spec fn offers_patch<R: std::io::Read>(p: SecPred, r: R, s: Seq<u8>, secs: Seq<Sec>) -> bool { offers(r, s) && is_patch(p, s, secs) }

pub proof fn lemma_section_unique1(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, g: SHead, h: SHead, x: Seq<SOp>, y: Seq<SOp>)
    requires is_section(a, g, x), is_section(b, h, y), prefix(a, t), prefix(b, t)
    ensures a == b, g == h, x == y
{
    let j = choose|j: int| is_section_at(a, j, g, x);
    let k = choose|k: int| is_section_at(b, k, h, y);
    lemma_prefix_skip(a, t, j);
    lemma_prefix_skip(b, t, k);
    lemma_head_unique(a.take(j), b.take(k), t, g, h);
    assert(a.take(j).len() == j && b.take(k).len() == k);
    lemma_body_unique(a.skip(j), b.skip(k), t.skip(j), x, y, !g.seg);
    assert(a =~= a.take(j) + a.skip(j));
    assert(b =~= b.take(k) + b.skip(k));
}
pub proof fn lemma_section_nonempty(s: Seq<u8>, h: SHead, ops: Seq<SOp>)
    requires is_section(s, h, ops)
    ensures s.len() >= 1
{
    let k = choose|k: int| is_section_at(s, k, h, ops);
    let (a, b) = choose|a: int, b: int| is_head_at(s.take(k), a, b, h);
}
pub proof fn lemma_plain_proper()
    ensures proper(plain())
{
    let p = plain();
    assert forall|a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, g: SHead, h: SHead, x: Seq<SOp>, y: Seq<SOp>| #![trigger p(a, g, x), p(b, h, y), prefix(a, t), prefix(b, t)]
        p(a, g, x) && p(b, h, y) && prefix(a, t) && prefix(b, t) implies a == b && g == h && x == y by { lemma_section_unique1(a, b, t, g, h, x, y); }
}
/// one more section at the end
pub proof fn lemma_secs_push(p: SecPred, s: Seq<u8>, secs: Seq<Sec>, t: Seq<u8>, x: Sec)
    requires is_secs(p, s, secs, false), p(t, x.h, x.ops)
    ensures is_secs(p, s + t, secs.push(x), !x.h.more), flat_ops(secs.push(x)) == flat_ops(secs) + x.ops
    decreases secs.len()
{
    assert(secs.push(x).drop_last() =~= secs);
    if secs.len() == 0 {
        assert((s + t).take(t.len() as int) =~= t);
        assert(secs.push(x).skip(1) =~= Seq::empty());
        assert((s + t).skip(t.len() as int) =~= Seq::empty());
        assert(is_secs(p, (s + t).skip(t.len() as int), secs.push(x).skip(1), false));
    } else {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] p(s.take(k), secs[0].h, secs[0].ops) && secs[0].h.more && is_secs(p, s.skip(k), secs.skip(1), false);
        lemma_secs_push(p, s.skip(k), secs.skip(1), t, x);
        assert((s + t).take(k) =~= s.take(k));
        assert((s + t).skip(k) =~= s.skip(k) + t);
        assert(secs.push(x).skip(1) =~= secs.skip(1).push(x));
    }
}
pub proof fn lemma_same_first<R: std::io::Read>(p: SecPred, r0: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>, t: Seq<u8>, secs: Seq<Sec>)
    requires offers_patch(p, r0, t, secs), offers(r0, s), p(s, h, ops), proper(p)
    ensures secs.len() > 0, secs[0] == (Sec { h, ops })
{
    let k = choose|k: int| 0 <= k <= t.len() && #[trigger] p(t.take(k), secs[0].h, secs[0].ops)
            && secs[0].h.more == !(secs.len() == 1) && is_secs(p, t.skip(k), secs.skip(1), secs.len() > 1);
    lemma_offers_prefix(r0, t);
    lemma_offers_prefix(r0, s);
    assert(t.take(k) =~= rest(r0).take(k));
    assert(prefix(t.take(k), rest(r0)));
}
/// after reading one section of an offered patch the remaining sections are offered
pub proof fn lemma_next_section<R: std::io::Read>(p: SecPred, r0: R, r1: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>, t: Seq<u8>, secs: Seq<Sec>)
    requires offers_patch(p, r0, t, secs), eaten(r0, r1, s), p(s, h, ops), proper(p)
    ensures secs.len() > 0, secs[0] == (Sec { h, ops }), h.more == (secs.len() > 1), h.more ==> offers_patch(p, r1, t.skip(s.len() as int), secs.skip(1))
{
    let k = choose|k: int| 0 <= k <= t.len() && #[trigger] p(t.take(k), secs[0].h, secs[0].ops)
            && secs[0].h.more == !(secs.len() == 1) && is_secs(p, t.skip(k), secs.skip(1), secs.len() > 1);
    lemma_offers_prefix(r0, t);
    lemma_eaten_prefix(r0, r1, s);
    assert(t.take(k) =~= rest(r0).take(k));
    assert(prefix(t.take(k), rest(r0)));
    assert(t.take(k).len() == k);
    lemma_offers_skip(r0, r1, s, t);
}
/// the first section of an offered patch is offered
pub proof fn lemma_first_section<R: std::io::Read>(p: SecPred, r0: R, t: Seq<u8>, secs: Seq<Sec>) -> (u: Seq<u8>)
    requires offers_patch(p, r0, t, secs)
    ensures offers(r0, u), p(u, secs[0].h, secs[0].ops), secs.len() > 0
{
    let k = choose|k: int| 0 <= k <= t.len() && #[trigger] p(t.take(k), secs[0].h, secs[0].ops)
            && secs[0].h.more == !(secs.len() == 1) && is_secs(p, t.skip(k), secs.skip(1), secs.len() > 1);
    lemma_offers_take(r0, t, k);
    t.take(k)
}
/// at one place there is at most one patch
pub proof fn lemma_patch_unique(p: SecPred, a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, x: Seq<Sec>, y: Seq<Sec>)
    requires is_patch(p, a, x), is_patch(p, b, y), proper(p), prefix(a, t), prefix(b, t)
    ensures a == b, x == y
    decreases x.len()
{
    let j = choose|k: int| 0 <= k <= a.len() && #[trigger] p(a.take(k), x[0].h, x[0].ops) && x[0].h.more == !(x.len() == 1) && is_secs(p, a.skip(k), x.skip(1), x.len() > 1);
    let k = choose|k: int| 0 <= k <= b.len() && #[trigger] p(b.take(k), y[0].h, y[0].ops) && y[0].h.more == !(y.len() == 1) && is_secs(p, b.skip(k), y.skip(1), y.len() > 1);
    lemma_prefix_skip(a, t, j);
    lemma_prefix_skip(b, t, k);
    assert(a.take(j) == b.take(k) && x[0].h == y[0].h && x[0].ops == y[0].ops);
    assert(a.take(j).len() == j && b.take(k).len() == k);
    assert(a =~= a.take(j) + a.skip(j));
    assert(b =~= b.take(k) + b.skip(k));
    assert(x =~= seq![x[0]] + x.skip(1));
    assert(y =~= seq![y[0]] + y.skip(1));
    if x.len() > 1 { lemma_patch_unique(p, a.skip(j), b.skip(k), t.skip(j), x.skip(1), y.skip(1)); }
}
/// what can be run without a source has no copy from it
pub proof fn lemma_no_src(ops: Seq<SOp>, out: Seq<u8>)
    requires run_ops(ops, None, out) is Some
    ensures !has_empty_dict(ops)
    decreases ops.len()
{
    if has_empty_dict(ops) {
        let i = choose|i: int| 0 <= i < ops.len() && empty_dict(#[trigger] ops[i]);
        if i == ops.len() - 1 { } else { lemma_no_src(ops.drop_last(), out); assert(empty_dict(ops.drop_last()[i])); }
    }
}
pub proof fn lemma_flat_first(secs: Seq<Sec>)
    requires secs.len() > 0
    ensures flat_ops(secs) == secs[0].ops + flat_ops(secs.skip(1))
    decreases secs.len()
{
    reveal_with_fuel(flat_ops, 2);
    if secs.len() == 1 { assert(secs.drop_last() =~= Seq::empty()); assert(secs.skip(1) =~= Seq::empty()); assert(flat_ops(secs) =~= flat_ops(secs.drop_last()) + secs.last().ops); assert(flat_ops(secs) =~= secs[0].ops); assert(flat_ops(secs.skip(1)) =~= Seq::<SOp>::empty()); assert(secs[0].ops + Seq::<SOp>::empty() =~= secs[0].ops); }
    else {
        lemma_flat_first(secs.drop_last());
        assert(secs.skip(1).drop_last() =~= secs.drop_last().skip(1));
        assert(secs[0].ops + flat_ops(secs.drop_last().skip(1)) + secs.last().ops =~= secs[0].ops + (flat_ops(secs.drop_last().skip(1)) + secs.last().ops));
    }
}
pub proof fn lemma_empty_dict_join(a: Seq<SOp>, b: Seq<SOp>)
    ensures has_empty_dict(a) || has_empty_dict(b) ==> has_empty_dict(a + b)
{
    if has_empty_dict(a) { let i = choose|i: int| 0 <= i < a.len() && empty_dict(#[trigger] a[i]); assert(empty_dict((a + b)[i])); }
    if has_empty_dict(b) { let i = choose|i: int| 0 <= i < b.len() && empty_dict(#[trigger] b[i]); assert(empty_dict((a + b)[a.len() + i])); }
}
/// nothing can be made of these operations after `out`
pub open spec fn cannot(ops: Seq<SOp>, src: Option<Seq<u8>>, out: Seq<u8>) -> bool { run_ops(ops, src, out) is None || has_empty_dict(ops) }
/// what is offered where reading starts is what has been read followed by what is offered now
pub open spec fn at_sections<R: std::io::Read>(p: SecPred, r0: R, r: R, s: Seq<u8>, read: Seq<Sec>, out: Seq<u8>, src: Option<Seq<u8>>, out0: Seq<u8>, done: bool) -> bool {
    &&& eaten(r0, r, s) && is_secs(p, s, read, done) && run_ops(flat_ops(read), src, out0) == Some(out)
    &&& !done ==> forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) && !cannot(flat_ops(secs), src, out0) ==> exists|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r, u, us) && !cannot(flat_ops(us), src, out)
}
pub proof fn lemma_at_init<R: std::io::Read>(p: SecPred, r0: R, src: Option<Seq<u8>>, out0: Seq<u8>)
    ensures at_sections(p, r0, r0, Seq::empty(), Seq::empty(), out0, src, out0, false)
{
    ax_rpos(r0);
    assert forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) && !cannot(flat_ops(secs), src, out0) implies exists|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r0, u, us) && !cannot(flat_ops(us), src, out0) by { }
}
/// no section is offered where one is needed: the patch is not valid
pub proof fn lemma_at_error<R: std::io::Read>(p: SecPred, r0: R, r: R, s: Seq<u8>, read: Seq<Sec>, out: Seq<u8>, src: Option<Seq<u8>>, out0: Seq<u8>)
    requires at_sections(p, r0, r, s, read, out, src, out0, false), forall|u: Seq<u8>, h: SHead, ops: Seq<SOp>| p(u, h, ops) ==> !#[trigger] offers_sec(r, u, h, ops)
    ensures forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) ==> cannot(flat_ops(secs), src, out0)
{
    assert forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) implies cannot(flat_ops(secs), src, out0) by {
        if !cannot(flat_ops(secs), src, out0) {
            let (u, us) = choose|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r, u, us) && !cannot(flat_ops(us), src, out);
            let z = lemma_first_section(p, r, u, us);
            assert(offers_sec(r, z, us[0].h, us[0].ops));
        }
    }
}
pub open spec fn offers_sec<R: std::io::Read>(r: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>) -> bool { offers(r, s) }
/// a section was read and its operations could not be applied: no continuation makes it a valid patch
pub proof fn lemma_at_fail<R: std::io::Read>(p: SecPred, r0: R, r: R, s: Seq<u8>, read: Seq<Sec>, out: Seq<u8>, src: Option<Seq<u8>>, out0: Seq<u8>, z: Seq<u8>, x: Sec)
    requires at_sections(p, r0, r, s, read, out, src, out0, false), offers(r, z), p(z, x.h, x.ops), proper(p), cannot(x.ops, src, out)
    ensures forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) ==> cannot(flat_ops(secs), src, out0)
{
    assert forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) implies cannot(flat_ops(secs), src, out0) by {
        if !cannot(flat_ops(secs), src, out0) {
            let (u, us) = choose|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r, u, us) && !cannot(flat_ops(us), src, out);
            lemma_same_first(p, r, z, x.h, x.ops, u, us);
            lemma_flat_first(us);
            lemma_run_join(us[0].ops, flat_ops(us.skip(1)), src, out);
            lemma_empty_dict_join(us[0].ops, flat_ops(us.skip(1)));
        }
    }
}
/// a section was read and applied
pub proof fn lemma_at_step<R: std::io::Read>(p: SecPred, r0: R, r: R, r1: R, s: Seq<u8>, read: Seq<Sec>, out: Seq<u8>, src: Option<Seq<u8>>, out0: Seq<u8>, z: Seq<u8>, x: Sec, out1: Seq<u8>)
    requires at_sections(p, r0, r, s, read, out, src, out0, false), eaten(r, r1, z), p(z, x.h, x.ops), proper(p), run_ops(x.ops, src, out) == Some(out1)
    ensures at_sections(p, r0, r1, s + z, read.push(x), out1, src, out0, !x.h.more)
{
    lemma_eaten_join(r0, r, r1, s, z);
    lemma_secs_push(p, s, read, z, x);
    lemma_run_join(flat_ops(read), x.ops, src, out0);
    if x.h.more {
        assert forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, r0, t, secs) && !cannot(flat_ops(secs), src, out0) implies exists|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r1, u, us) && !cannot(flat_ops(us), src, out1) by {
            let (u, us) = choose|u: Seq<u8>, us: Seq<Sec>| #[trigger] offers_patch(p, r, u, us) && !cannot(flat_ops(us), src, out);
            lemma_next_section(p, r, r1, z, x.h, x.ops, u, us);
            lemma_flat_first(us);
            lemma_run_join(us[0].ops, flat_ops(us.skip(1)), src, out);
            lemma_empty_dict_join(us[0].ops, flat_ops(us.skip(1)));
            assert(offers_patch(p, r1, u.skip(z.len() as int), us.skip(1)));
        }
    }
}

}
}
